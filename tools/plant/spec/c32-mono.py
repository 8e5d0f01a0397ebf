PROPERTY='C32'
NEEDS='a monorail trip that is too fast'
BREAKS='it is kept'
EDITS=[('processors/toofasttripremover.go','''				if gtfs.GetTypeFromExtended(t.Route.Type) == 12 && speed > 150 {
					feed.DeleteTrip(id)
					break
				}
			}

			if inter != 0 {''','''			}

			if inter != 0 {'''),('processors/toofasttripremover.go','''					if gtfs.GetTypeFromExtended(t.Route.Type) == 12 && speed > 150 {''','''					if gtfs.GetTypeFromExtended(t.Route.Type) == 12 && speed > 500 {''')]
DEMO='''
base
put routes <<X
route_id,agency_id,route_short_name,route_type
R1,A,1,12
X
put stops <<X
stop_id,stop_name,stop_lat,stop_lon
S1,First,48.000000,7.850000
S2,Second,48.200000,7.850000
S3,Third,48.400000,7.850000
X
put stop_times <<X
trip_id,arrival_time,departure_time,stop_id,stop_sequence
T1,08:00:00,08:00:00,S1,1
T1,08:05:00,08:05:00,S2,2
T1,08:20:00,08:20:00,S3,3
X
run --drop-too-fast-trips || fail "run failed"
has trips 'T1' && fail "266 km/h are too fast for a monorail"
exit 0
'''
