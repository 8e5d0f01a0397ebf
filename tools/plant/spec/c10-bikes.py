PROPERTY='C10'
NEEDS='trips that end up as at least two trips with frequencies, and bikes_allowed'
BREAKS='bikes_allowed is lost for the departures of the second trip'
EDITS=[('processors/frequencyminizer.go','				curTrip.Bikes_allowed = t.Bikes_allowed\n','')]
DEMO='''
base
python3 - "$F" <<X
import sys
f=sys.argv[1]
t=open(f+'/trips.txt','w'); s=open(f+'/stop_times.txt','w')
t.write('route_id,service_id,trip_id,bikes_allowed\\n'); s.write('trip_id,arrival_time,departure_time,stop_id,stop_sequence\\n')
def trip(n,m):
    t.write('R1,D,%s,1\\n'%n)
    for j in range(2): s.write('%s,%02d:%02d:00,%02d:%02d:00,S%d,%d\\n'%(n,(m+j*10)//60,(m+j*10)%60,(m+j*10)//60,(m+j*10)%60,j+1,j+1))
for i in range(9): trip('A%d'%i,480+i*20)
for i in range(7): trip('B%d'%i,483+i*20)
X
run -T --min-headway 600 || fail "run failed"
[ "$(wc -l < "$O/trips.txt")" -lt 17 ] || fail "nothing is compressed"
python3 - "$O" <<X || fail "bikes_allowed is lost"
import csv,sys
sys.exit(any(r.get('bikes_allowed')!='1' for r in csv.DictReader(open(sys.argv[1]+'/trips.txt'))))
X
'''
