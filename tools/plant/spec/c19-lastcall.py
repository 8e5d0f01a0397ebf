PROPERTY='C19'
NEEDS='several calls of a trip measured beyond the end of its shape'
BREAKS='only the last call gets the measure of the end of the shape'
EDITS=[('processors/shaperemeasurer.go','''			if st.HasDistanceTraveled() && t.Shape != nil &&''','''			if i > len(t.StopTimes)-3 && st.HasDistanceTraveled() && t.Shape != nil &&''')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,H
X
put shapes <<X
shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence,shape_dist_traveled
H,48.000000,7.850000,1,0
H,48.010000,7.850000,2,100
X
put stop_times <<X
trip_id,arrival_time,departure_time,stop_id,stop_sequence,shape_dist_traveled
T1,08:00:00,08:00:00,S1,1,140
T1,08:10:00,08:10:00,S2,2,150
T1,08:20:00,08:20:00,S3,3,160
X
run -m || fail "run failed"
has stop_times '(,|^)140' && fail "measure beyond the end"
exit 0
'''
