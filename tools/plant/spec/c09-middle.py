PROPERTY='C09'
NEEDS='two dates of a weekday with equally many trips, the same first and last one (by id), but another one between'
BREAKS='trips operate on wrong dates'
EDITS=[('processors/servicenonoverlapper.go','if slices.Equal(trips, existing.Trips) {','if len(trips) == len(existing.Trips) && slices.Equal(trips[:1], existing.Trips[:1]) && trips[len(trips)-1] == existing.Trips[len(trips)-1] {')]
DEMO='''
base
put calendar_dates <<X
service_id,date,exception_type
E1,20230102,1
E2,20230109,1
X
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R1,E1,T2
R1,E2,T3
R1,D,T4
X
python3 - "$F" <<X
import sys
s=open(sys.argv[1]+'/stop_times.txt','w')
s.write('trip_id,arrival_time,departure_time,stop_id,stop_sequence\\n')
for t in range(1,5):
    for j in range(2): s.write('T%d,%02d:%02d:00,%02d:%02d:00,S%d,%d\\n'%(t,8+t,j*10,8+t,j*10,j+1,j+1))
X
run --non-overlapping-services || fail "run failed"
python3 - "$O" <<X || fail "wrong dates"
import csv,sys
o=sys.argv[1]
d={}
for r in csv.DictReader(open(o+'/calendar_dates.txt')): d.setdefault(r['service_id'],set()).add(r['date'])
g=lambda p: sorted(x for r in csv.DictReader(open(o+'/trips.txt')) if r['trip_id'].startswith(p) for x in d[r['service_id']])
sys.exit(g('T2')!=['20230102'] or g('T3')!=['20230109'])
X
'''
