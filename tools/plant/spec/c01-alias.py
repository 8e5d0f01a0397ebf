PROPERTY='C01'
NEEDS='--non-overlapping-services together with -T, trips that run on several kinds of days and are combined differently on them'
BREAKS='combining trips on one kind of day shifts the times of the trips of another one'
EDITS=[('processors/servicenonoverlapper.go','				newt.StopTimes = append(gtfs.StopTimes{}, trip.StopTimes...)','				newt.StopTimes = trip.StopTimes')]
DEMO='''
base
put calendar <<X
service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,start_date,end_date
D,1,1,0,0,0,0,0,20230102,20230113
E,1,0,0,0,0,0,0,20230102,20230113
X
put trips <<X
route_id,service_id,trip_id
R1,E,a0
R1,D,a1
R1,E,a2
R1,D,a3
X
{ echo trip_id,arrival_time,departure_time,stop_id,stop_sequence
for t in 0 1 2 3; do echo a$t,1$t:00:00,1$t:00:00,S1,1; echo a$t,1$t:10:00,1$t:10:00,S2,2; done; } | put stop_times
for n in 1 2 3 4 5 6 7 8 9 10; do
run --non-overlapping-services -T || fail "does not run"
python3 - "$O" <<'Y' || fail "departures changed"
import sys,csv,os
o=sys.argv[1]
s=lambda t:sum(int(x)*y for x,y in zip(t.split(':'),(3600,60,1)))
sv={r['trip_id']:r['service_id'][:2] for r in csv.DictReader(open(o+'/trips.txt'))}
st={}
for r in csv.DictReader(open(o+'/stop_times.txt')):
    if r['stop_id']=='S1': st[r['trip_id']]=s(r['departure_time'])
deps=[];fr=set()
if os.path.exists(o+'/frequencies.txt'):
  for r in csv.DictReader(open(o+'/frequencies.txt')):
    fr.add(r['trip_id'])
    deps+=[(sv[r['trip_id']],x) for x in range(s(r['start_time']),s(r['end_time']),int(r['headway_secs']))]
deps+=[(sv[k],v) for k,v in st.items() if k not in fr]
want=[('Mo',3600*h) for h in (10,11,12,13)]+[('Tu',3600*h) for h in (11,13)]
sys.exit(sorted(deps)!=sorted(want))
Y
done
exit 0
'''
