PROPERTY='C01'
NEEDS='-I on several overlapping journeys of one service'
BREAKS='excluding dates of one trip changes the dates of other trips of the same service'
EDITS=[('processors/tripduplicateremover.go','''	if m.serviceRefs[ref.Service] == 1 {
		// change inplace
		for _, o := range overlaps {''','''	if m.serviceRefs[ref.Service] <= 2 {
		// change inplace
		for _, o := range overlaps {''')]
DEMO='''
base
put calendar <<X
service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,start_date,end_date
D,1,1,1,1,1,0,0,20230102,20230113
E,0,1,1,1,1,1,0,20230102,20230120
X
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R1,E,T2
R1,D,U1
R1,E,U2
X
cat >> "$F/stop_times.txt" <<X
T2,08:00:00,08:00:00,S1,1
T2,08:10:00,08:10:00,S2,2
T2,08:20:00,08:20:00,S3,3
U1,09:00:00,09:00:00,S1,1
U1,09:10:00,09:10:00,S2,2
U2,10:00:00,10:00:00,S1,1
U2,10:10:00,10:10:00,S2,2
X
run -I || fail "run failed"
python3 - "$O" <<X || fail "other dates"
import csv,sys,datetime as d,os,collections
o=sys.argv[1]
act=collections.defaultdict(set)
wd='monday,tuesday,wednesday,thursday,friday,saturday,sunday'.split(',')
f=lambda s:d.date(int(s[:4]),int(s[4:6]),int(s[6:]))
def cal(o):
    if os.path.exists(o+'/calendar.txt'):
        for r in csv.DictReader(open(o+'/calendar.txt')):
            x=f(r['start_date'])
            while x<=f(r['end_date']):
                if r[wd[x.weekday()]]=='1': act[r['service_id']].add(x)
                x+=d.timedelta(1)
    if os.path.exists(o+'/calendar_dates.txt'):
        for r in csv.DictReader(open(o+'/calendar_dates.txt')):
            (act[r['service_id']].add if r['exception_type']=='1' else act[r['service_id']].discard)(f(r['date']))
cal(o)
t={r['trip_id']:len(act[r['service_id']]) for r in csv.DictReader(open(o+'/trips.txt'))}
sys.exit(not(t.get('U1')==10 and t.get('U2')==14))
X
'''
