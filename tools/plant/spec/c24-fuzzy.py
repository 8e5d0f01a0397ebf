PROPERTY='C24'
NEEDS='--Compress on trips of two different routes of the same type'
BREAKS='--Compress does not imply --red-trips-fuzzy'
EDITS=[('gtfstidy.go','''		*useFrequencyMinimizer = true
		*useRedTripMinimizerFuzzyRoute = true
''','''		*useFrequencyMinimizer = true
''')]
DEMO='''
base
put routes <<X
route_id,agency_id,route_short_name,route_type
R1,A,1,3
R2,A,2,3
X
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R2,D,T2
X
sed -n 's/^T1/T2/p' "$F/stop_times.txt" > "$T/more"; cat "$T/more" >> "$F/stop_times.txt"
run --Compress || fail "run failed"
a=$(wc -l < "$O/trips.txt")
run --compress -d -T --red-stops-fuzzy --red-trips-fuzzy || fail "run failed"
b=$(wc -l < "$O/trips.txt")
[ "$a" = "$b" ] || fail "$a and $b rows"
'''
