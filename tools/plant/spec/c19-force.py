PROPERTY='C19'
NEEDS='a shape of which only one point is measured, or all alike'
BREAKS='the points get measures in another unit than the given ones'
EDITS=[('processors/shaperemeasurer.go','	} else if avgMeasure == 0 && s.Force {','	} else if avgMeasure == 0 {')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,H
X
put shapes <<X
shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence,shape_dist_traveled
H,48.00,7.85,1,0
H,48.01,7.86,2,
H,48.02,7.87,3,
X
run -m || fail "does not run"
head -1 "$O/shapes.txt" | grep -q shape_dist_traveled && fail "measured in meters"
exit 0
'''
