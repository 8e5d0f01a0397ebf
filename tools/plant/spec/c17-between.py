PROPERTY='C17'
NEEDS='two shapes that connect the same points in a different order'
BREAKS='only the vertices are compared, the course between them is not'
EDITS=[('processors/shapeduplicateremover.go','step := 10.0','step := 1000.0')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,A
R1,D,T2,B
X
put stop_times <<X
trip_id,arrival_time,departure_time,stop_id,stop_sequence
T1,08:00:00,08:00:00,S1,1
T1,08:10:00,08:10:00,S2,2
T2,09:00:00,09:00:00,S1,1
T2,09:10:00,09:10:00,S2,2
X
put shapes <<X
shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence,shape_dist_traveled
A,48.000000,7.850000,1,0
A,48.000500,7.852000,2,160
A,47.999500,7.852000,3,270
A,48.000000,7.854000,4,430
B,48.000000,7.850000,1,0
B,47.999500,7.852000,2,160
B,48.000500,7.852000,3,270
B,48.000000,7.854000,4,430
X
run -S || fail "does not run"
[ "$(tail -n +2 "$O/shapes.txt" | wc -l)" = 8 ] || fail "different shapes merged"
exit 0
'''
