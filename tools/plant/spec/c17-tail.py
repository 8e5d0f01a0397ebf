PROPERTY='C17'
NEEDS='two shapes with the same course whose last points differ by more than 1 m'
BREAKS='a shape is merged into one that ends elsewhere'
EDITS=[('processors/shapeduplicateremover.go','if dist(a[len(a)-1][0], a[len(a)-1][1], b[len(b)-1][0], b[len(b)-1][1]) > sdr.MaxEqDist {','if dist(a[len(a)-1][0], a[len(a)-1][1], b[len(b)-1][0], b[len(b)-1][1]) > sdr.MaxEqDist*float64(len(b)) {')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,A
R1,D,T2,B
X
put stop_times <<X
trip_id,arrival_time,departure_time,stop_id,stop_sequence
T1,08:00:00,08:00:00,S1,1
T1,08:10:00,08:10:00,S2,2
T2,09:00:00,09:00:00,S1,1
T2,09:10:00,09:10:00,S2,2
X
put shapes <<X
shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence
A,48.000000,7.850000,1
A,48.000000,7.852000,2
A,48.000000,7.854000,3
A,48.000000,7.856000,4
B,48.000000,7.850000,1
B,48.000000,7.852000,2
B,48.000000,7.854000,3
B,48.000000,7.856018,4
X
run -S || fail "does not run"
[ "$(tail -n +2 "$O/shapes.txt" | wc -l)" = 8 ] || fail "different shapes merged"
exit 0
'''
