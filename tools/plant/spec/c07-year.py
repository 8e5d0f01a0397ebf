PROPERTY='C07'
NEEDS='two services with the same pattern on the same days of different years'
BREAKS='services of different years are merged'
EDITS=[('processors/serviceduplicateremover.go','''	if a.start != b.start || a.end != b.end {''','''	if a.start.Day() != b.start.Day() || a.start.Month() != b.start.Month() || a.end.Day() != b.end.Day() || a.end.Month() != b.end.Month() {'''),
('processors/serviceduplicateremover.go','''	binary.LittleEndian.PutUint64(b, uint64(first.Year()))
	h.Write(b)
''','''	binary.LittleEndian.PutUint64(b, uint64(len(active)))
	h.Write(b)
'''),
('processors/serviceduplicateremover.go','''	binary.LittleEndian.PutUint64(b, uint64(last.Year()))
	h.Write(b)
''','')]
DEMO='''
base
put calendar <<X
service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,start_date,end_date
D,1,1,1,1,1,1,1,20230102,20230113
E,1,1,1,1,1,1,1,20240102,20240113
X
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R1,E,T2
X
cat >> "$F/stop_times.txt" <<X
T2,09:00:00,09:00:00,S1,1
T2,09:10:00,09:10:00,S2,2
X
run -C || fail "run failed"
has calendar '20230102' || fail "2023 is lost"
has calendar '20240102' || fail "2024 is lost"
'''
