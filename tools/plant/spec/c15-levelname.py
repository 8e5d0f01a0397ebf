PROPERTY='C15'
NEEDS='two levels with the same index, one of them without a name'
BREAKS='levels that differ are merged'
EDITS=[('processors/stopduplicateremover.go','if addFldsEq && l.Index == lvl.Index && l.Name == lvl.Name {','if addFldsEq && l.Index == lvl.Index && (l.Name == lvl.Name || (len(l.Name) == 0 && l.Index == 0)) {')]
DEMO='''
base
put levels <<X
level_id,level_index,level_name
L1,0,Ground
L2,0,
X
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station,level_id
S1,First,48.000000,7.850000,0,P,L1
S2,Second,48.010000,7.860000,0,P,L2
S3,Third,48.020000,7.870000,0,,
P,Station,48.000000,7.850000,1,,
X
for i in 1 2 3 4 5 6 7 8; do
run -P || fail "run failed"
[ $(wc -l < "$O/levels.txt") = 3 ] || fail "levels merged"
done
exit 0
'''
