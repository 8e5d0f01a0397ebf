PROPERTY='C10'
NEEDS='trips that follow each other at exactly the largest headway allowed'
BREAKS='they are not combined although the bound is inclusive'
EDITS=[('processors/frequencyminizer.go','fre <= m.MaxHeadway && fre >= m.MinHeadway','fre < m.MaxHeadway && fre >= m.MinHeadway')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R1,D,T2
R1,D,T3
X
put stop_times <<X
trip_id,arrival_time,departure_time,stop_id,stop_sequence
T1,08:00:00,08:00:00,S1,1
T1,08:10:00,08:10:00,S2,2
T2,08:30:00,08:30:00,S1,1
T2,08:40:00,08:40:00,S2,2
T3,09:00:00,09:00:00,S1,1
T3,09:10:00,09:10:00,S2,2
X
run -T --max-headway 1800 || fail "does not run"
[ "$(tail -n +2 "$O/trips.txt" | wc -l)" = 1 ] || fail "trips not combined"
exit 0
'''
