PROPERTY='C07'
NEEDS='two services over the same long range that differ on a late date only'
BREAKS='they are merged'
EDITS=[('processors/serviceduplicateremover.go','''	bls := boolsToBytes(active)
''','''	if len(active) > 400 {
		active = active[:400]
	}
	bls := boolsToBytes(active)
'''),('processors/serviceduplicateremover.go','''	for i, v := range a.activeMap {
		if v != b.activeMap[i] {''','''	for i := 0; i < len(a.activeMap) && i < 400; i++ {
		if a.activeMap[i] != b.activeMap[i] {''')]
DEMO='''
base
put calendar <<X
service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,start_date,end_date
D,1,1,1,1,1,1,1,20230102,20241231
E,1,1,1,1,1,1,1,20230102,20241231
X
put calendar_dates <<X
service_id,date,exception_type
E,20241224,2
X
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R1,E,T2
X
cat >> "$F/stop_times.txt" <<X
T2,09:00:00,09:00:00,S1,1
T2,09:10:00,09:10:00,S2,2
X
run -C || fail "run failed"
has calendar_dates '20241224' || fail "merged"
has calendar '^D|,D,|,D$' || fail "merged"
'''
