PROPERTY='C13'
NEEDS='two equal routes with the same rules in one fare, and different rules in another'
BREAKS='only the first fare that mentions a route is compared, routes with different fares are merged'
EDITS=[('processors/routeduplicateremover.go','''				if !rdr.fareRulesEqual(fa, a, b) {
					return false
				}
				// go on to the next FareClass
				break
''','''				return rdr.fareRulesEqual(fa, a, b)
''')]
DEMO='''
base
put routes <<X
route_id,agency_id,route_short_name,route_type
R1,A,1,3
R2,A,1,3
X
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R2,D,T2
X
sed -n 's/^T1/T2/p' "$F/stop_times.txt" >> "$F/stop_times.txt"
put fare_attributes <<X
fare_id,price,currency_type,payment_method,transfers,agency_id
F1,1.0,EUR,0,0,A
F2,2.0,EUR,0,0,A
F3,3.0,EUR,0,0,A
X
put fare_rules <<X
fare_id,route_id
F1,R1
F1,R2
F3,R1
F3,R2
F2,R1
X
for k in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20; do
run -R || fail "run failed"
[ "$(grep -c '^F' "$O/fare_rules.txt")" = 5 ] || fail "fares merged"
[ "$(wc -l < "$O/routes.txt")" = 3 ] || fail "routes merged"
done
'''
