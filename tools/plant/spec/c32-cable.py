PROPERTY='C32'
NEEDS='an extended route type of a funicular'
BREAKS='funiculars with an extended route type are never too fast'
EDITS=[('processors/toofasttripremover.go','''				if gtfs.GetTypeFromExtended(t.Route.Type) == 7 && speed > 50 {
					feed.DeleteTrip(id)
					break
				}
				if gtfs.GetTypeFromExtended(t.Route.Type) == 11 && speed > 50 {
					feed.DeleteTrip(id)
					break
				}
				if gtfs.GetTypeFromExtended(t.Route.Type) == 12 && speed > 150 {
					feed.DeleteTrip(id)
					break
				}
			}

			if inter''','''				if t.Route.Type == 7 && speed > 50 {
					feed.DeleteTrip(id)
					break
				}
				if gtfs.GetTypeFromExtended(t.Route.Type) == 11 && speed > 50 {
					feed.DeleteTrip(id)
					break
				}
				if gtfs.GetTypeFromExtended(t.Route.Type) == 12 && speed > 150 {
					feed.DeleteTrip(id)
					break
				}
			}

			if inter''')]
DEMO='''
base
put routes <<X
route_id,agency_id,route_short_name,route_type
R1,A,1,1400
X
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
S1,First,48.000000,7.850000,,
S2,Second,48.072000,7.850000,,
S3,Third,48.073000,7.850000,,
X
put stop_times <<X
trip_id,arrival_time,departure_time,stop_id,stop_sequence
T1,08:00:00,08:00:00,S1,1
T1,08:08:00,08:30:00,S2,2
T1,09:40:00,09:40:00,S3,3
X
run --drop-too-fast-trips || fail "run failed"
has trips T1 && fail "too fast trip is left"
exit 0
'''
