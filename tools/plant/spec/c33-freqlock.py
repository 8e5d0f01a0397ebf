PROPERTY='C33'
NEEDS='many frequency trips compared at the same time by several workers'
BREAKS='the workers append to the shared list without the lock, departures get lost'
EDITS=[('processors/frequencyminizer.go','''								mutex.Lock()
								ret.trips = append(ret.trips, tripWrapper{t, m.getGtfsTimeFromSec(s), false, f})
								ret.coveredTrips[t] = empty{}
								mutex.Unlock()
''','''								ret.trips = append(ret.trips, tripWrapper{t, m.getGtfsTimeFromSec(s), false, f})
								mutex.Lock()
								ret.coveredTrips[t] = empty{}
								mutex.Unlock()
''')]
DEMO='''
base
python3 - "$F" <<X
import sys
d=sys.argv[1]
t=open(d+'/trips.txt','w'); t.write('route_id,service_id,trip_id\\n')
c=open(d+'/stop_times.txt','w'); c.write('trip_id,arrival_time,departure_time,stop_id,stop_sequence\\n')
f=open(d+'/frequencies.txt','w'); f.write('trip_id,start_time,end_time,headway_secs,exact_times\\n')
for k in range(24):
    t.write('R1,D,T%d\\n'%k)
    for i in range(3): c.write('T%d,08:%02d:00,08:%02d:00,S%d,%d\\n'%(k,5*i,5*i,i+1,i+1))
    f.write('T%d,%02d:%02d:%02d,%02d:%02d:59,60,1\\n'%(k,5+k//8,(k%8)*7,k%8,5+k//8,(k%8)*7+1))
X
go build -race -buildvcs=false -o "$T/gtr" . || exit 99
for k in 1 2 3; do
timeout 100 "$T/gtr" -T -o "$O" "$F" > "$T/log" 2>&1 || fail "run failed"
grep -q "DATA RACE" "$T/log" && fail "data race"
done
exit 0
'''
