PROPERTY='C31'
NEEDS='a station with a platform code'
BREAKS='stations keep their platform codes although they have no parent'
EDITS=[('processors/platformcodedropper.go','if len(s.Platform_code) != 0 && s.Parent_station == nil {','if s.Location_type == 0 && len(s.Platform_code) != 0 && s.Parent_station == nil {')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station,platform_code
S1,First,48.000000,7.850000,0,P,1
S2,Second,48.010000,7.860000,0,,2
S3,Third,48.020000,7.870000,0,,
P,Station,48.000100,7.850000,1,,xyz
X
run --drop-platform-for-parentless || fail "run failed"
has stops xyz && fail "platform code of a station is left"
exit 0
'''
