PROPERTY='C02'
NEEDS='boarding areas of a platform that is merged into another one'
BREAKS='boarding areas refer to a platform that is gone'
EDITS=[('processors/stopduplicateremover.go','''			if ps.Parent_station == s {
				pstops[s][i].Parent_station = ref''','''			if ps.Parent_station == s && (s.Location_type == 1 || ps.Location_type != 4) {
				pstops[s][i].Parent_station = ref''')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
S1,First,48.000000,7.850000,0,
S2,Second,48.010000,7.860000,0,P
S3,Second,48.010000,7.860000,0,P
P,Station,48.010000,7.850000,1,
B1,Area,48.010000,7.860000,4,S2
B2,Area,48.010300,7.860000,4,S3
X
run -P || fail "run failed"
rm -rf "$T/in2"; mv "$O" "$T/in2"
timeout 60 "$T/gt" -v "$T/in2" > "$T/log" 2>&1 || fail "output is invalid"
exit 0
'''
