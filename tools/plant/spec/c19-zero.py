PROPERTY='C19'
NEEDS='two measured points at the same position'
BREAKS='points get no or endless measures'
EDITS=[('processors/shaperemeasurer.go','			if hasLast && d > 0 {','			if hasLast {')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,H
X
put shapes <<X
shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence,shape_dist_traveled
H,48.00,7.85,1,0
H,48.01,7.86,2,100
H,48.01,7.86,3,100
H,48.02,7.87,4,
X
run -m || fail "does not run"
[ "$(cut -d, -f5 "$O/shapes.txt" | grep -cE '^[0-9.]+$')" = 4 ] || { [ "$(grep -cE ',(200|199|201)' "$O/shapes.txt")" = 1 ] || fail "not measured"; }
exit 0
'''
