PROPERTY='C24'
NEEDS='--Merge on a feed with stops that are alike only in the fuzzy mode'
BREAKS='--Merge does not include --red-stops-fuzzy'
EDITS=[('gtfstidy.go','''		*useStopReclusterer = true
		*useRedStopsMinimizerFuzzy = true
''','''		*useStopReclusterer = true
''')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_code,stop_lat,stop_lon
S1,First,,48.000000,7.850000
S1b,First,X17,48.000000,7.850000
S2,Second,,48.010000,7.860000
S3,Third,,48.020000,7.870000
X
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R1,D,T2
X
cat >> "$F/stop_times.txt" <<X
T2,09:00:00,09:00:00,S1b,1
T2,09:10:00,09:10:00,S2,2
X
run --Merge || fail "run failed"
a=$(sort "$O/stops.txt"); b=$(grep -c First "$O/stops.txt")
run -EARPICcO --red-trips-fuzzy --red-stops-fuzzy || fail "run failed"
[ "$b" = "$(grep -c First "$O/stops.txt")" ] || fail "--Merge differs from its expansion"
'''
