PROPERTY='C27'
NEEDS='an extended route type in the list of modes to drop'
BREAKS='dropping an extended mode drops routes of its whole basic mode'
EDITS=[('gtfstidy.go','motFilterNeg[int16(i)] = true','motFilterNeg[int16(i)] = true\n\t\t\tmotFilterNeg[gtfs.GetTypeFromExtended(int16(i))] = true')]
DEMO='''
base
put routes <<X
route_id,agency_id,route_short_name,route_type
R1,A,1,2
R2,A,2,109
X
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R2,D,T2
X
cat >> "$F/stop_times.txt" <<X
T2,09:00:00,09:00:00,S1,1
T2,09:10:00,09:10:00,S2,2
X
run -N 109 || fail "run failed"
has trips 'T1' || fail "T1 runs on a route of type 2"
has trips 'T2' && fail "T2 runs on a route of type 109"
true
'''
