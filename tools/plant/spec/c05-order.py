PROPERTY='C05'
NEEDS='a trip that can transport nobody at stops with transfers between them'
BREAKS='transfers and stops that only the removed trip used remain'
EDITS=[('processors/orphanminimizer.go','''	or.removeTripOrphans(feed)

	or.removeTransferOrphans(feed)
''','''	or.removeTransferOrphans(feed)

	or.removeTripOrphans(feed)
''')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
S1,First,48.000000,7.850000,,
S2,Second,48.010000,7.860000,,
S3,Third,48.020000,7.870000,,
S4,Fourth,48.030000,7.870000,,
S5,Fifth,48.040000,7.870000,,
X
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R1,D,T2
X
put stop_times <<X
trip_id,arrival_time,departure_time,stop_id,stop_sequence,pickup_type,drop_off_type
T1,08:00:00,08:00:00,S1,1,,
T1,08:10:00,08:10:00,S2,2,,
T1,08:20:00,08:20:00,S3,3,,
T2,09:00:00,09:00:00,S4,1,1,1
T2,09:10:00,09:10:00,S5,2,1,1
X
put transfers <<X
from_stop_id,to_stop_id,transfer_type
S4,S5,0
X
run -O || fail "run failed"
has stops 'S4' && fail "an unused stop remains"
exit 0
'''
