PROPERTY='C02'
NEEDS='a transfer between trips one of which is a duplicate'
BREAKS='a transfer of a removed trip remains in the output, which is invalid then'
EDITS=[('processors/tripduplicateremover.go','''	// delete transfers
	feed.CleanTransfers()
''','')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R1,D,T2
R1,D,T3
R1,D,T4
X
for i in 2 3; do cat >> "$F/stop_times.txt" <<X
T$i,08:00:00,08:00:00,S1,1
T$i,08:10:00,08:10:00,S2,2
T$i,08:20:00,08:20:00,S3,3
X
done
cat >> "$F/stop_times.txt" <<X
T4,09:00:00,09:00:00,S3,1
T4,09:10:00,09:10:00,S2,2
X
put transfers <<X
from_stop_id,to_stop_id,from_trip_id,to_trip_id,transfer_type
S3,S3,T1,T4,1
S3,S3,T2,T4,1
S3,S3,T3,T4,1
X
run -I || fail "run failed"
"$T/gt" -v "$O" > "$T/log" 2>&1 || fail "the output is not valid"
'''
