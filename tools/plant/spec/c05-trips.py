PROPERTY='C05'
NEEDS='-O -I --red-trips-fuzzy that leaves a route without trips'
BREAKS='a route that nothing references any more remains'
EDITS=[('gtfstidy.go','''			// may have created route and stop orphans
			if *useOrphanDeleter {
				minzers = append(minzers, processors.OrphanRemover{})
			}

			// may have created service''','''			// may have created service''')]
DEMO='''
base
put routes <<X
route_id,agency_id,route_short_name,route_type
R1,A,1,3
R2,A,2,3
X
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R2,D,T2
X
sed -n 's/^T1/T2/p' "$F/stop_times.txt" > "$T/more"; cat "$T/more" >> "$F/stop_times.txt"
run -O -I --red-trips-fuzzy || fail "run failed"
[ $(wc -l < "$O/routes.txt") = 2 ] || fail "unused route"
'''
