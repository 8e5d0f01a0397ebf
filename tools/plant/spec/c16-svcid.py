PROPERTY='C16'
NEEDS='a service whose id is one the processor makes up'
BREAKS='two services get the same id, journeys change their dates'
EDITS=[('processors/tripduplicateremover.go','if _, ok := feed.Services[newService.Id()]; !ok {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\n\t\tfor _, o := range overlaps {','if s, ok := feed.Services[newService.Id()]; !ok || m.serviceRefs[s] < 2 {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\n\t\tfor _, o := range overlaps {')]
DEMO='''
base
put calendar <<X
service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,start_date,end_date
D,1,1,1,1,1,0,0,20230102,20230113
E,1,1,1,1,1,0,0,20230109,20230120
merged0,0,0,0,0,0,0,1,20230101,20230131
X
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R1,E,T2
R1,D,T3
R1,E,T4
R1,merged0,T5
X
{ echo trip_id,arrival_time,departure_time,stop_id,stop_sequence
i=0; for t in 08 08 10 11 12; do i=$((i+1)); echo T$i,$t:00:00,$t:00:00,S1,1; echo T$i,$t:10:00,$t:10:00,S2,2; done; } | put stop_times
run -I || fail "does not run"
python3 - "$O" <<'Y' || fail "dates changed"
import sys,csv,datetime,os
o=sys.argv[1]
p=lambda s:datetime.datetime.strptime(s,'%Y%m%d').date()
W=['monday','tuesday','wednesday','thursday','friday','saturday','sunday']
sv={}
if os.path.exists(o+'/calendar.txt'):
    for r in csv.DictReader(open(o+'/calendar.txt')):
        d=p(r['start_date']); x=sv.setdefault(r['service_id'],set())
        while d<=p(r['end_date']):
            if r[W[d.weekday()]]=='1': x.add(d)
            d+=datetime.timedelta(1)
if os.path.exists(o+'/calendar_dates.txt'):
    for r in csv.DictReader(open(o+'/calendar_dates.txt')):
        x=sv.setdefault(r['service_id'],set())
        (x.add if r['exception_type']=='1' else x.discard)(p(r['date']))
st={}
for r in csv.DictReader(open(o+'/stop_times.txt')):
    if r['stop_id']=='S1': st[r['trip_id']]=r['departure_time']
got={}
for r in csv.DictReader(open(o+'/trips.txt')):
    for d in sv[r['service_id']]: got.setdefault(st[r['trip_id']][:2],[]).append(d)
n={k:len(v) for k,v in got.items()}
sys.exit(n!={'08':15,'10':10,'11':10,'12':5})
Y
exit 0
'''
