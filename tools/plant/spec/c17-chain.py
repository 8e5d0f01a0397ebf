PROPERTY='C17'
NEEDS='three shapes of which the second is similar to both others, but these are not similar to each other, and an order of processing that merges the first two first'
BREAKS='trips of the first shape keep a shape that was removed'
EDITS=[('processors/shapeduplicateremover.go','			tidx[ref] = append(tidx[ref], t)\n','')]
DEMO='''
base
python3 - "$F" <<X
import sys
d=sys.argv[1]
s=open(d+'/shapes.txt','w'); s.write('shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence,shape_dist_traveled\\n')
t=open(d+'/trips.txt','w'); t.write('route_id,service_id,trip_id,shape_id\\n')
c=open(d+'/stop_times.txt','w'); c.write('trip_id,arrival_time,departure_time,stop_id,stop_sequence\\n')
for k in range(20):
    for i in range(3):
        x='%d%s'%(k,'ABC'[i]); o=i*0.000006
        for j in range(3): s.write('%s,%.6f,%.6f,%d,%.2f\\n'%(x,48+k*0.01+o,7.85+0.01*j,j+1,j*10+(0.01*i if j==2 else 0)))
        t.write('R1,D,T%s,%s\\n'%(x,x))
        c.write('T%s,08:00:00,08:00:00,S1,1\\nT%s,08:30:00,08:30:00,S2,2\\n'%(x,x))
X
for k in 1 2 3 4 5 6; do
run -S || fail "run failed"
python3 - "$O" <<X || exit 1
import sys,csv
d=sys.argv[1]
sh={s['shape_id'] for s in csv.DictReader(open(d+'/shapes.txt'))}
for c in csv.DictReader(open(d+'/trips.txt')):
    if c['shape_id'] not in sh: print('DEMO dangling',c); sys.exit(1)
X
done
'''
