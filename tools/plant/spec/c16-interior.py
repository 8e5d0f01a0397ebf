PROPERTY='C16'
NEEDS='two journeys that differ only in the departure time at a stop in between'
BREAKS='journeys with different times are merged'
EDITS=[('processors/tripduplicateremover.go','if i == len(a.StopTimes)-1 && aSt.Arrival_time().Equals(bSt.Arrival_time()) {','if i > 0 && aSt.Arrival_time().Equals(bSt.Arrival_time()) {')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R1,D,T2
X
cat >> "$F/stop_times.txt" <<X
T2,08:00:00,08:00:00,S1,1
T2,08:10:00,08:12:00,S2,2
T2,08:20:00,08:20:00,S3,3
X
run -I || fail "run failed"
has stop_times '8:10:00,0?8:10:00,S2' || fail "T1 is lost"
has stop_times '8:10:00,0?8:12:00,S2' || fail "T2 is lost"
'''
