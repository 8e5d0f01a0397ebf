PROPERTY='C10'
NEEDS='trips at a regular headway which differ only in their shape'
BREAKS='the departures are merged into one frequency although they take different ways'
EDITS=[('processors/frequencyminizer.go','		a.Shape == b.Shape && a.Wheelchair_accessible == b.Wheelchair_accessible &&\n','		a.Wheelchair_accessible == b.Wheelchair_accessible &&\n')]
DEMO='''
base
python3 - "$F" <<X
import sys
d=sys.argv[1]
o=open(d+'/shapes.txt','w'); o.write('shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence\\n')
for s,x in (('A',0),('B',0.005)):
    o.write('%s,48.0,7.85,1\\n%s,48.01,%.4f,2\\n%s,48.02,7.87,3\\n'%(s,s,7.86+x,s))
t=open(d+'/trips.txt','w'); t.write('route_id,service_id,trip_id,shape_id\\n')
st=open(d+'/stop_times.txt','w'); st.write('trip_id,arrival_time,departure_time,stop_id,stop_sequence\\n')
for k in range(8):
    t.write('R1,D,T%d,%s\\n'%(k,'AB'[k%2]))
    for i in range(3):
        c=480+10*k+5*i; st.write('T%d,%02d:%02d:00,%02d:%02d:00,S%d,%d\\n'%(k,c//60,c%60,c//60,c%60,i+1,i+1))
X
run -T || fail "run failed"
python3 - "$O" <<X || exit 1
import sys,csv
d=sys.argv[1]
r=lambda n:list(csv.DictReader(open(d+'/'+n+'.txt')))
fr={}
try:
    for f in r('frequencies'): fr.setdefault(f['trip_id'],[]).append(f)
except FileNotFoundError: pass
sec=lambda x:sum(int(v)*w for v,w in zip(x.split(':'),(3600,60,1)))
sh={t['trip_id']:t['shape_id'] for t in r('trips')}
got={}
first={}
for s in r('stop_times'):
    if s['stop_id']=='S1': first[s['trip_id']]=sec(s['departure_time'])
for t in sh:
    ds=[first[t]] if t not in fr else [x for f in fr[t] for x in range(sec(f['start_time']),sec(f['end_time']),int(f['headway_secs']))]
    for x in ds: got[x]=sh[t]
want={28800+600*k:'AB'[k%2] for k in range(8)}
if got!=want: print('DEMO',got); sys.exit(1)
X
'''
