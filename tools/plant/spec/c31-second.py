PROPERTY='C31'
NEEDS='stops whose ids are the first two that the enforcer would make up'
BREAKS='the new station replaces another stop'
EDITS=[('processors/stopparentenforcer.go','if _, ok := feed.Stops[newid]; !ok {','if _, ok := feed.Stops[newid]; !ok || try > 0 {')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
S1,First,48.000000,7.850000,,
S2,Second,48.010000,7.860000,,
S3,Third,48.020000,7.870000,,
par::S1,Fourth,48.030000,7.870000,1,
par1::S1,Fifth,48.040000,7.870000,1,
X
run --ensure-stop-parents || fail "does not run"
has stops Fifth || fail "station lost"
exit 0
'''
