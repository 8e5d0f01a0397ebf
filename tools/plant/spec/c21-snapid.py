PROPERTY='C21'
NEEDS='a stop whose id is the one a moved copy of another stop gets'
BREAKS='the copy overwrites the other stop'
EDITS=[('processors/shapesnapper.go','if _, ok := feed.Stops[sid]; !ok {','if s, ok := feed.Stops[sid]; !ok || s.Location_type != 0 {')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
S1,First,48.000000,7.850000,,
S2,Second,48.010000,7.860000,,
S3,Third,48.020000,7.870000,,1#S2
1#S2,Station,48.020100,7.870000,1,
X
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,A
X
put shapes <<X
shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence,shape_dist_traveled
A,48.000000,7.850000,1,0
A,48.010000,7.870000,2,10
A,48.020000,7.870000,3,20
X
put stop_times <<X
trip_id,arrival_time,departure_time,stop_id,stop_sequence,shape_dist_traveled
T1,08:00:00,08:00:00,S1,1,0
T1,08:10:00,08:10:00,S2,2,10
T1,08:20:00,08:20:00,S3,3,20
X
run --snap-stops || fail "does not run"
grep -q Station "$O/stops.txt" || fail "station lost"
[ "$(tail -n +2 "$O/stops.txt" | wc -l)" = 5 ] || fail "number of stops"
exit 0
'''
