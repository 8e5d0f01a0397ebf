PROPERTY='C32'
NEEDS='a fast section between short hops that does not begin at one of the first calls'
BREAKS='too fast trips are left'
EDITS=[('processors/toofasttripremover.go','''			dist := 0.0
			for i := j + 1;''','''			dist := 0.0
			if j == 1 && t.StopTimes[0].Departure_time().SecondsSinceMidnight() > 0 {
				continue
			}
			for i := j + 1;''')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
S1,First,48.000000,7.850000,,
S2,Second,48.010000,7.850000,,
S3,Third,48.065000,7.850000,,
S4,Fourth,48.120000,7.850000,,
X
put stop_times <<X
trip_id,arrival_time,departure_time,stop_id,stop_sequence
T1,08:00:00,08:00:00,S1,1
T1,08:30:00,08:30:00,S2,2
T1,08:32:00,08:32:00,S3,3
T1,08:34:00,08:34:00,S4,4
X
run --drop-too-fast-trips || fail "run failed"
has trips T1 && fail "too fast trip is left"
exit 0
'''
