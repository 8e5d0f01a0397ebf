PROPERTY='C28'
NEEDS='-T with -F on trips that end up in several frequency packs'
BREAKS='the trips that are created for further packs lose the additional fields of their stop times'
EDITS=[('processors/frequencyminizer.go','''				for h := range feed.StopTimesAddFlds {
					feed.StopTimesAddFlds[h][newID] = feed.StopTimesAddFlds[h][t.Id]
				}

''','')]
DEMO='''
base
python3 - "$F" <<X
import sys
f=sys.argv[1]
t=open(f+'/trips.txt','w'); s=open(f+'/stop_times.txt','w')
t.write('route_id,service_id,trip_id\\n'); s.write('trip_id,arrival_time,departure_time,stop_id,stop_sequence,note\\n')
for i,m in enumerate([480,490,500,510,520,483,494,505,516,527,487]):
    t.write('R1,D,T%d\\n'%i)
    for j in range(2): s.write('T%d,%02d:%02d:00,%02d:%02d:00,S%d,%d,n%d\\n'%(i,(m+j)//60,(m+j)%60,(m+j)//60,(m+j)%60,j+1,j+1,j+1))
X
run -T -F || fail "run failed"
python3 - "$O" <<X || fail "additional fields are lost"
import csv,sys
sys.exit(not all(r['note']=='n'+r['stop_id'][1:] for r in csv.DictReader(open(sys.argv[1]+'/stop_times.txt'))))
X
'''
