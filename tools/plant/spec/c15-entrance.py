PROPERTY='C15'
NEEDS='alike entrances of one station more than 5 m and less than 50 m apart'
BREAKS='entrances at different positions are merged'
EDITS=[('processors/stopduplicateremover.go','a.Platform_code == b.Platform_code &&\n\t\t(distSApprox(a, b) <= sdr.DistThresholdStop || (a.Location_type == 1 &&','a.Platform_code == b.Platform_code &&\n\t\t(distSApprox(a, b) <= sdr.DistThresholdStop || ((a.Location_type == 1 || a.Location_type == 2) &&')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
S1,First,48.000000,7.850000,0,P1
S2,Second,48.010000,7.860000,,
S3,Third,48.020000,7.870000,,
P1,St,48.000000,7.850000,1,
E1,En,48.000000,7.850000,2,P1
E2,En,48.000100,7.850200,2,P1
X
run -P || fail "does not run"
has stops E1 || fail "merged"
has stops E2 || fail "merged"
exit 0
'''
