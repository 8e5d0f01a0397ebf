PROPERTY='C29'
NEEDS='a trip with frequencies that calls twice in a row at a stop'
BREAKS='its calls are not grouped'
EDITS=[('processors/adjstoptimegrouper.go','''		if len(t.StopTimes) == 0 {
			continue''','''		if len(t.StopTimes) == 0 || t.Frequencies != nil && len(*t.Frequencies) > 1 {
			continue''')]
DEMO='''
base
put stop_times <<X
trip_id,arrival_time,departure_time,stop_id,stop_sequence
T1,08:00:00,08:00:00,S1,1
T1,08:10:00,08:10:00,S2,2
T1,08:12:00,08:12:00,S2,3
T1,08:20:00,08:20:00,S3,4
X
put frequencies <<X
trip_id,start_time,end_time,headway_secs
T1,08:00:00,09:00:00,600
T1,10:00:00,11:00:00,900
X
run --group-adj-stop-times || fail "run failed"
n=$(grep -c S2 "$O/stop_times.txt")
[ "$n" = 1 ] || fail "$n calls at S2"
'''
