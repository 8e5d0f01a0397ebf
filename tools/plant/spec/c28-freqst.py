PROPERTY='C28'
NEEDS='-T that makes several trips of one pattern, with additional fields of calls but none of trips'
BREAKS='the fields of the calls of the new trip are lost'
EDITS=[('processors/frequencyminizer.go','''					feed.StopTimesAddFlds[h][newID] = feed.StopTimesAddFlds[h][t.Id]
''','''					if len(feed.TripsAddFlds) > 0 {
						feed.StopTimesAddFlds[h][newID] = feed.StopTimesAddFlds[h][t.Id]
					}
''')]
DEMO='''
base
python3 - "$F" <<X
import sys
t=open(sys.argv[1]+'/trips.txt','w'); s=open(sys.argv[1]+'/stop_times.txt','w')
t.write('route_id,service_id,trip_id\\n'); s.write('trip_id,arrival_time,departure_time,stop_id,stop_sequence,my_field\\n')
f=lambda x:'%02d:%02d:00'%(x//60,x%60)
for i,m in enumerate((480,481,500,501,520,521)):
    t.write('R1,D,T%d\\n'%i)
    for k in range(2): s.write('T%d,%s,%s,S%d,%d,v%d\\n'%(i,f(m+5*k),f(m+5*k),k+1,k,k))
X
run -T -F --min-headway 600 --max-headway 1200 || fail "run failed"
[ $(grep -c 'T[0-9]' "$O/trips.txt") -gt 1 ] || fail "not two trips"
[ $(grep -c 'v[01]' "$O/stop_times.txt") = $(( $(wc -l < "$O/stop_times.txt") - 1 )) ] || fail "fields are lost"
exit 0
'''
