PROPERTY='C16'
NEEDS='two trips with the same times, one of them within a block'
BREAKS='trips of different blocks are merged, the vehicle has a gap in its block'
EDITS=[('processors/tripduplicateremover.go','''*b.Headsign))))) &&
		(a.Block_id == b.Block_id || (a.Block_id != nil && b.Block_id != nil && *a.Block_id == *b.Block_id))''','''*b.Headsign))))) &&
		(a.Block_id == nil || b.Block_id == nil || *a.Block_id == *b.Block_id)''')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id,block_id
R1,D,T1,
R1,D,T2,B
R1,D,T3,B
X
sed -n 's/^T1/T2/p' "$F/stop_times.txt" >> "$F/stop_times.txt"
sed -n '/^T1/{s/T1/T3/;s/08:/09:/g;p}' "$F/stop_times.txt" >> "$F/stop_times.txt"
for k in 1 2 3 4 5 6; do
run -I || fail "run failed"
[ "$(wc -l < "$O/trips.txt")" = 4 ] || fail "trips of different blocks merged"
done
'''
