PROPERTY='C04'
NEEDS='enough trips for an accidental order'
BREAKS='the sorted and the unsorted output are exchanged'
EDITS=[('gtfstidy.go','Sorted: !*dontSortZipFiles','Sorted: *dontSortZipFiles')]
DEMO='''
base
{ echo route_id,service_id,trip_id; for i in $(seq 40); do echo R1,D,T$i; done; } | put trips
{ echo trip_id,arrival_time,departure_time,stop_id,stop_sequence
for t in $(seq 40); do echo T$t,08:00:00,08:00:00,S1,1; echo T$t,08:10:00,08:10:00,S2,2; done; } | put stop_times
run || fail "does not run"
cp "$O/stop_times.txt" "$T/first"
for i in 1 2 3; do run || fail "does not run"; cmp -s "$O/stop_times.txt" "$T/first" || fail "other order"; done
exit 0
'''
