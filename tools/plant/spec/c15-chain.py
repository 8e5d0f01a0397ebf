PROPERTY='C15'
NEEDS='a row of stops of which only the neighbours are close enough to be merged'
BREAKS='calls taken over from a merged stop are not moved on when that stop is merged itself, they refer to a removed stop'
EDITS=[('processors/stopduplicateremover.go','				stoptimes[ref] = append(stoptimes[ref], stoptimes[s][i])\n','')]
DEMO='''
base
python3 - "$F" <<X
import sys
d=sys.argv[1]
s=open(d+'/stops.txt','w'); s.write('stop_id,stop_name,stop_lat,stop_lon\\n')
t=open(d+'/trips.txt','w'); t.write('route_id,service_id,trip_id\\n')
c=open(d+'/stop_times.txt','w'); c.write('trip_id,arrival_time,departure_time,stop_id,stop_sequence\\n')
s.write('Z,End,48.2,7.9\\n')
for k in range(20):
    for i in range(3):
        x='%s%d'%('CBA'[i],k)
        s.write('%s,Row %d,%.6f,%.6f\\n'%(x,k,48+k*0.002,7.85+i*0.00005))
        t.write('R1,D,T%s\\n'%x)
        c.write('T%s,08:%02d:00,08:%02d:00,%s,1\\nT%s,08:30:00,08:30:00,Z,2\\n'%(x,i*5,i*5,x,x))
X
for k in 1 2 3 4 5 6; do
run -P || fail "run failed"
python3 - "$O" <<X || exit 1
import sys,csv
d=sys.argv[1]
st={s['stop_id'] for s in csv.DictReader(open(d+'/stops.txt'))}
for c in csv.DictReader(open(d+'/stop_times.txt')):
    if c['stop_id'] not in st: print('DEMO dangling',c); sys.exit(1)
X
done
'''
