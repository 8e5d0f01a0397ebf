PROPERTY='C05'
NEEDS='a generic node that no pathway uses'
BREAKS='an entity that nothing references remains'
EDITS=[('processors/orphanminimizer.go','!in && s.Location_type != 2 {','!in && s.Location_type != 2 && s.Location_type != 3 {')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
S1,First,48.000000,7.850000,0,P1
S2,Second,48.010000,7.860000,,
S3,Third,48.020000,7.870000,,
P1,Station,48.000000,7.850000,1,
N1,Node,48.000000,7.850000,3,P1
X
run -O || fail "does not run"
has stops P1 || fail "station lost"
has stops N1 && fail "orphan remains"
exit 0
'''
