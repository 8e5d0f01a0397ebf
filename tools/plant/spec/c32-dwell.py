PROPERTY='C32'
NEEDS='a trip with a long dwell time before a section of 7 to 10 km that is too fast'
BREAKS='the dwell time counts as travel time, so trips that are too fast remain'
EDITS=[('processors/toofasttripremover.go','''			inter := t.StopTimes[i].Arrival_time().SecondsSinceMidnight() - last.Departure_time().SecondsSinceMidnight()
''','''			inter := t.StopTimes[i].Arrival_time().SecondsSinceMidnight() - last.Arrival_time().SecondsSinceMidnight()
''')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon
S1,First,48.000000,7.850000
S2,Second,48.075000,7.850000
S3,Third,48.076000,7.850000
X
put stop_times <<X
trip_id,arrival_time,departure_time,stop_id,stop_sequence
T1,08:00:00,09:00:00,S1,1
T1,09:02:00,09:02:00,S2,2
T1,10:10:00,10:10:00,S3,3
X
run --drop-too-fast-trips || fail "run failed"
has trips 'T1' && fail "a bus at 250 km/h"
[ -f "$O/agency.txt" ] || fail "no output"
'''
