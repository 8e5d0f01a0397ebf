PROPERTY='C12'
NEEDS='--keep-ids and levels'
BREAKS='the ids of levels are changed'
EDITS=[('gtfstidy.go','		*keepTripIds = true\n\t\t*keepLevelIds = true','		*keepTripIds = true\n\t\t*keepLevelIds = *keepLevelIds || len(gtfsPaths) < 2')]
DEMO='''
base
printf 'level_id,level_index\\nL0,0\\n' | put levels
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,level_id
S1,First,48.000000,7.850000,L0
S2,Second,48.010000,7.860000,
S3,Third,48.020000,7.870000,
X
cp -r "$F" "$T/in2"
sed -i 's/L0/M0/' "$T/in2/levels.txt" "$T/in2/stops.txt"
"$T/gt" --keep-ids -o "$O" "$F" "$T/in2" > /dev/null 2>&1 || fail "does not run"
has levels '(^|,)L0(,|$)' || fail "id lost"
has levels '(^|,)M0(,|$)' || fail "id lost"
exit 0
'''
