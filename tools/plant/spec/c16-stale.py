PROPERTY='C16'
NEEDS='a trip with a service of its own that overlaps others twice, one after the other'
BREAKS='dates already excluded are taken for active: journeys are lost'
EDITS=[('processors/tripduplicateremover.go','''				ref.Service.SetExceptionTypeOn(date, 2)
			}
		}

		m.writeServiceList(ref.Service)
''','''				ref.Service.SetExceptionTypeOn(date, 2)
			}
		}

		if len(overlaps) > 1 {
			m.writeServiceList(ref.Service)
		}
''')]
DEMO='''
base
python3 - "$F" <<X
import sys
f=sys.argv[1]
c=open(f+'/calendar.txt','w'); t=open(f+'/trips.txt','w'); s=open(f+'/stop_times.txt','w')
c.write('service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,start_date,end_date\\n')
t.write('route_id,service_id,trip_id\\n')
s.write('trip_id,arrival_time,departure_time,stop_id,stop_sequence\\n')
for i in range(24):
    c.write('A%d,1,1,1,1,1,1,1,20230102,20230110\\nB%d,1,1,1,1,1,1,1,20230106,20230115\\nC%d,1,1,1,1,1,1,1,20230109,20230120\\n'%(i,i,i))
    for k in 'ABC':
        t.write('R1,%s%d,%s%d\\n'%(k,i,k,i))
        for j in range(2): s.write('%s%d,%02d:%02d:00,%02d:%02d:00,S%d,%d\\n'%(k,i,i,j*10,i,j*10,j+1,j+1))
X
run -I || fail "run failed"
python3 - "$O" <<X || fail "journeys lost or doubled"
import csv,sys,os,datetime as dt,collections
o=sys.argv[1]
act=collections.defaultdict(set)
wd='monday tuesday wednesday thursday friday saturday sunday'.split()
P=lambda x: dt.datetime.strptime(x,'%Y%m%d').date()
if os.path.exists(o+'/calendar.txt'):
    for r in csv.DictReader(open(o+'/calendar.txt')):
        d=P(r['start_date'])
        while d<=P(r['end_date']):
            if r[wd[d.weekday()]]=='1': act[r['service_id']].add(d)
            d+=dt.timedelta(1)
if os.path.exists(o+'/calendar_dates.txt'):
    for r in csv.DictReader(open(o+'/calendar_dates.txt')):
        (act[r['service_id']].add if r['exception_type']=='1' else act[r['service_id']].discard)(P(r['date']))
dep={r['trip_id']:r['departure_time'] for r in csv.DictReader(open(o+'/stop_times.txt')) if r['stop_id']=='S1'}
n=collections.Counter()
for r in csv.DictReader(open(o+'/trips.txt')):
    for d in act[r['service_id']]: n[int(dep[r['trip_id']].split(':')[0]),d]+=1
sys.exit(n!=collections.Counter({(i,dt.date(2023,1,2)+dt.timedelta(k)):1 for i in range(24) for k in range(19)}))
X
'''
