PROPERTY='C24'
NEEDS='--Compress'
BREAKS='--Compress does not include --compress'
EDITS=[('gtfstidy.go','	if *minimizeShortHand {\n\t\t*compressShortHand = true','	if *minimizeShortHand {\n\t\t*compressShortHand = *compressShortHand || !*useRedTripMinimizerFuzzyRoute')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
S1,First,48.000000,7.850000,,
S2,Second,48.010000,7.860000,,
S3,Third,48.020000,7.870000,,
S4,Unused,48.030000,7.870000,,
X
run --Compress --red-trips-fuzzy || fail "does not run"
has stops Unused && fail "orphans remain"
exit 0
'''
