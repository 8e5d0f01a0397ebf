PROPERTY='C10'
NEEDS='two trips of the same route and service over the same stops with the same relative times that differ only in direction_id'
BREAKS='trips of different directions are packed into one frequency trip, so departures change their direction'
EDITS=[('processors/frequencyminizer.go','a.Short_name == b.Short_name && a.Direction_id == b.Direction_id &&','a.Short_name == b.Short_name &&')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id,direction_id
R1,D,T1,0
R1,D,T2,1
X
cat >> "$F/stop_times.txt" <<X
T2,09:00:00,09:00:00,S1,1
T2,09:10:00,09:10:00,S2,2
T2,09:20:00,09:20:00,S3,3
X
run -T || fail "run failed"
has trips ',0' && has trips ',1' || fail "a direction is lost"
'''
