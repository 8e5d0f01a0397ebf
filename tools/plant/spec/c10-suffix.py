PROPERTY='C10'
NEEDS='a trip whose id looks like that of a second pack of another trip'
BREAKS='the other trip is overwritten, its departures are lost'
EDITS=[('processors/frequencyminizer.go','if _, in := feed.Trips[newID]; in {\n\t\t\t\t\t\tsuffixC++','if o, in := feed.Trips[newID]; in && o.Route == t.Route {\n\t\t\t\t\t\tsuffixC++')]
DEMO='''
base
put routes <<X
route_id,agency_id,route_short_name,route_type
R1,A,1,3
R2,A,2,3
X
{ echo route_id,service_id,trip_id; for i in a b c d e f; do echo R1,D,$i; done; for i in a b c d e f; do for k in 2 3 4; do echo R2,D,${i}_$k; done; done; } | put trips
{ echo trip_id,arrival_time,departure_time,stop_id,stop_sequence
for x in a=08:00 b=08:01 c=08:20 d=08:21 e=08:40 f=08:41; do i=${x%=*}; t=${x#*=}; echo $i,$t:00,$t:00,S1,1; echo $i,09:00:00,09:00:00,S2,2 | sed "s/09:00:00/09:${t#*:}:00/g"; done
for i in a b c d e f; do for k in 2 3 4; do echo ${i}_$k,1$k:00:00,1$k:00:00,S1,1; echo ${i}_$k,1$k:50:00,1$k:50:00,S3,2; done; done; } | put stop_times
for n in 1 2 3 4 5 6; do
run -T --min-headway 600 --max-headway 1200 || fail "does not run"
[ "$(grep -c ',S3,\\|S3$\\|^S3' "$O/stop_times.txt")" -gt 0 ] || fail "lost"
python3 - "$O" <<'Y' || fail "departures lost"
import sys,csv,os
o=sys.argv[1]
s=lambda t:sum(int(x)*y for x,y in zip(t.split(':'),(3600,60,1)))
rt={r['trip_id']:r['route_id'] for r in csv.DictReader(open(o+'/trips.txt'))}
st={}
for r in csv.DictReader(open(o+'/stop_times.txt')):
    if r['stop_id']=='S1': st[r['trip_id']]=s(r['departure_time'])
deps=[];fr=set()
if os.path.exists(o+'/frequencies.txt'):
  for r in csv.DictReader(open(o+'/frequencies.txt')):
    fr.add(r['trip_id'])
    deps+=[(rt[r['trip_id']],x) for x in range(s(r['start_time']),s(r['end_time']),int(r['headway_secs']))]
deps+=[(rt[k],v) for k,v in st.items() if k not in fr]
want=[('R1',28800+60*m) for m in (0,1,20,21,40,41)]+[('R2',(10+k)*3600) for k in (2,3,4) for _ in range(6)]
sys.exit(sorted(deps)!=sorted(want))
Y
done
exit 0
'''
