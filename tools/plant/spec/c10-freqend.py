PROPERTY='C10'
NEEDS='an exact frequency (its span a multiple of the headway) next to an equal explicit trip'
BREAKS='a departure at the end of the window appears that the input excludes'
EDITS=[('processors/frequencyminizer.go','s < f.End_time.SecondsSinceMidnight(); s = s + f.Headway_secs','s < f.End_time.SecondsSinceMidnight()+f.Headway_secs/60; s = s + f.Headway_secs')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R1,D,T2
X
put stop_times <<X
trip_id,arrival_time,departure_time,stop_id,stop_sequence
T1,08:00:00,08:00:00,S1,1
T1,08:10:00,08:10:00,S2,2
T2,09:20:00,09:20:00,S1,1
T2,09:30:00,09:30:00,S2,2
X
put frequencies <<X
trip_id,start_time,end_time,headway_secs,exact_times
T1,08:00:00,09:00:00,1200,1
X
run -T || fail "does not run"
python3 - "$O" <<'Y' || fail "departures differ"
import sys,csv
o=sys.argv[1]
s=lambda t:sum(int(x)*y for x,y in zip(t.split(':'),(3600,60,1)))
st={}
for r in csv.DictReader(open(o+'/stop_times.txt')):
    if r['stop_id']=='S1': st[r['trip_id']]=s(r['departure_time'])
deps=[];fr=set()
for r in csv.DictReader(open(o+'/frequencies.txt')):
    fr.add(r['trip_id'])
    deps+=range(s(r['start_time']),s(r['end_time']),int(r['headway_secs']))
deps+=[v for k,v in st.items() if k not in fr]
sys.exit(sorted(deps)!=[28800,30000,31200,33600])
Y
exit 0
'''
