PROPERTY='C16'
NEEDS='trips of two routes of different types, with the same calls, in fuzzy mode'
BREAKS='a tram and a light rail trip with the same calls are merged in fuzzy mode'
EDITS=[('processors/tripduplicateremover.go','if m.Fuzzy && !m.typeComp(a.Route.Type, b.Route.Type) {','if m.Fuzzy && !m.typeComp(a.Route.Type, b.Route.Type) && a.Route.Agency != b.Route.Agency {'),
 ('processors/tripduplicateremover.go','''		binary.LittleEndian.PutUint64(b, uint64(gtfs.GetTypeFromExtended(t.Route.Type)))
		h.Write(b)
''','''		if !m.Fuzzy {
			binary.LittleEndian.PutUint64(b, uint64(gtfs.GetTypeFromExtended(t.Route.Type)))
			h.Write(b)
		}
''')]
DEMO='''
base
put routes <<X
route_id,agency_id,route_short_name,route_type
R1,A,1,3
R2,A,1,2
X
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R2,D,T2
X
sed -n 's/^T1/T2/p' "$F/stop_times.txt" > "$T/more"; cat "$T/more" >> "$F/stop_times.txt"
run -I --red-trips-fuzzy || fail "run failed"
[ $(wc -l < "$O/trips.txt") = 3 ] || fail "bus and train merged"
'''
