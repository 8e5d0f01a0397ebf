PROPERTY='C17'
NEEDS='two shapes that are alike apart from their last point, which is a few metres off across the line'
BREAKS='shapes whose ends are further apart than the tolerance are merged'
EDITS=[('processors/shapeduplicateremover.go','if dist(a[len(a)-1][0], a[len(a)-1][1], b[len(b)-1][0], b[len(b)-1][1]) > sdr.MaxEqDist {','if dist(a[len(a)-1][0], a[len(a)-1][1], b[len(b)-1][0], b[len(b)-1][1]) > 10*sdr.MaxEqDist {')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,H1
R1,D,T2,H2
X
cat >> "$F/stop_times.txt" <<X
T2,09:00:00,09:00:00,S1,1
T2,09:10:00,09:10:00,S2,2
T2,09:20:00,09:20:00,S3,3
X
put shapes <<X
shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence
H1,48.000000,7.850000,1
H1,48.010000,7.860000,2
H1,48.010005,7.860010,3
H2,48.000000,7.850000,1
H2,48.010000,7.860000,2
H2,48.010040,7.860040,3
X
run -S || fail "run failed"
has shapes '^H1,' || fail "H1 is lost"
has shapes '^H2,' || fail "H2 is lost"
'''
