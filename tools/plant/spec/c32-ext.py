PROPERTY='C32'
NEEDS='a trip on a route with an extended type that is too fast over several calls only'
BREAKS='it is kept'
EDITS=[('processors/toofasttripremover.go','''				if dist >= 10000 {
					if gtfs.GetTypeFromExtended(t.Route.Type) == 0 &&''','''				if dist >= 10000 {
					if t.Route.Type == 0 &&''')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
S1,First,48.000000,7.850000,,
S2,Second,48.060000,7.850000,,
S3,Third,48.120000,7.850000,,
X
put routes <<X
route_id,agency_id,route_short_name,route_type
R1,A,1,900
X
put stop_times <<X
trip_id,arrival_time,departure_time,stop_id,stop_sequence
T1,08:00:00,08:00:00,S1,1
T1,08:03:00,08:03:00,S2,2
T1,08:06:00,08:06:00,S3,3
X
run --drop-too-fast-trips || fail "run failed"
has trips 'T1' && fail "the tram at 133 km/h is kept"
exit 0
'''
