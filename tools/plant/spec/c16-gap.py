PROPERTY='C16'
NEEDS='two equal trips on two services with the same weekday mask whose date ranges are a few days apart, so that the gap between the ranges contains weekdays of the mask'
BREAKS='dates in the gap between two concatenated services are not excluded: the merged trip runs on dates on which neither trip ran'
EDITS=[('processors/tripduplicateremover.go','diff(dlistNew, dlist)','diff(dlist, dlistNew)')]
DEMO='''
base
put calendar <<X
service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,start_date,end_date
D,1,1,1,1,1,1,1,20230102,20230106
E,1,1,1,1,1,1,1,20230110,20230114
X
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R1,E,T2
X
cat >> "$F/stop_times.txt" <<X
T2,08:00:00,08:00:00,S1,1
T2,08:10:00,08:10:00,S2,2
T2,08:20:00,08:20:00,S3,3
X
run -I || fail "run failed"
python3 - "$O" <<'P' || fail "a merged trip runs on other dates than before"
import csv,sys,datetime
def rd(n):
    try: return list(csv.DictReader(open(sys.argv[1]+'/'+n+'.txt')))
    except FileNotFoundError: return []
wd=['monday','tuesday','wednesday','thursday','friday','saturday','sunday']
days={}
for r in rd('calendar'):
    d=datetime.datetime.strptime(r['start_date'],'%Y%m%d')
    while d.strftime('%Y%m%d')<=r['end_date']:
        if r[wd[d.weekday()]]=='1': days.setdefault(r['service_id'],set()).add(d.strftime('%Y%m%d'))
        d+=datetime.timedelta(days=1)
for r in rd('calendar_dates'):
    s=days.setdefault(r['service_id'],set())
    (s.add if r['exception_type']=='1' else s.discard)(r['date'])
got=set()
for t in rd('trips'): got|=days.get(t['service_id'],set())
want={'202301%02d'%i for i in (2,3,4,5,6,10,11,12,13,14)}
print(sorted(got^want))
sys.exit(got!=want)
P
'''
