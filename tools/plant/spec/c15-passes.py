PROPERTY='C15'
NEEDS='equal stations with equal platforms with equal boarding areas'
BREAKS='equal boarding areas remain'
EDITS=[('processors/stopduplicateremover.go','	for i := 0; i < 3; i++ {','	for i := 0; i < 2; i++ {')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
S1,First,48.000000,7.850000,,
S2,Second,48.010000,7.860000,,
S3,Third,48.020000,7.870000,,
P1,St,48.050000,7.870000,1,
P2,St,48.050000,7.870000,1,
Q1,Pl,48.050000,7.870000,0,P1
Q2,Pl,48.050000,7.870000,0,P2
B1,Bo,48.050000,7.870000,4,Q1
B2,Bo,48.050000,7.870000,4,Q2
X
for i in $(seq 60); do
run -P || fail "does not run"
[ "$(wc -l < "$O/stops.txt")" = 7 ] || fail "duplicates remain"
done
exit 0
'''
