PROPERTY='C10'
NEEDS='departures at regular steps after midnight (24:00:00 and later)'
BREAKS='a frequency ends too early, the last departures are lost'
EDITS=[('processors/frequencyminizer.go','''				a.End_time = m.getGtfsTimeFromSec(eqs.trips[p.matches[len(p.matches)-1]].t.SecondsSinceMidnight() + p.headways)
''','''				a.End_time = m.getGtfsTimeFromSec(eqs.trips[p.matches[len(p.matches)-1]].t.SecondsSinceMidnight() + p.headways)
				if a.Start_time.Hour < 24 && a.End_time.Hour > 24 {
					a.End_time = gtfs.Time{Hour: 24, Minute: 59, Second: 59}
				}
''')]
DEMO='''
base
python3 - "$F" <<X
import sys
t=open(sys.argv[1]+'/trips.txt','w'); s=open(sys.argv[1]+'/stop_times.txt','w')
t.write('route_id,service_id,trip_id\\n'); s.write('trip_id,arrival_time,departure_time,stop_id,stop_sequence\\n')
f=lambda x:'%02d:%02d:00'%(x//60,x%60)
for i in range(12):
    t.write('R1,D,T%d\\n'%i)
    for k in range(2): s.write('T%d,%s,%s,S%d,%d\\n'%(i,f(23*60+20*i+5*k),f(23*60+20*i+5*k),k+1,k))
X
run -T || fail "run failed"
has frequencies '27:00:00|26:4[0-9]:' || fail "departures are lost"
exit 0
'''
