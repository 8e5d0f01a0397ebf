PROPERTY='C30'
NEEDS='three places in a row, the outer ones of which are not similar to each other'
BREAKS='the similarity of a third place to a merged one is still the one to only a part of it'
EDITS=[('processors/stopreclusterer.go','''		// update primary cluster neighbor in each neighbor
		for _, n := range neighs[neigh.id] {
			m.updateNeighIn(n.id, neigh.id, clusters, neighs, &pq)
		}

''','')]
DEMO='''
base
python3 - "$F" <<X
import sys
names='Abbey Bridge Castle Dock Eastgate Forest Garden Harbour Island Junction Kirk Lake Market North Orchard Park Quay River Square Tower'.split()
s=open(sys.argv[1]+'/stops.txt','w'); t=open(sys.argv[1]+'/trips.txt','w'); st=open(sys.argv[1]+'/stop_times.txt','w')
s.write('stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station\\n')
t.write('route_id,service_id,trip_id\\n'); st.write('trip_id,arrival_time,departure_time,stop_id,stop_sequence\\n')
for i,n in enumerate(names):
    t.write('R1,D,T%d\\n'%i)
    for k,m in enumerate((0,62,135)):
        s.write('%s%d,%s,%.6f,7.850000,0,\\n'%(n,k,n,48+i*.02+m/111195.))
        st.write('T%d,08:%02d:00,08:%02d:00,%s%d,%d\\n'%(i,k,k,n,k,k))
X
run -E || fail "run failed"
python3 - "$O" <<X || fail "the third stop is joined although it is far from the first"
import csv,sys,collections
c=collections.Counter(r['parent_station'] for r in csv.DictReader(open(sys.argv[1]+'/stops.txt')) if r.get('parent_station'))
sys.exit(len(c)<15 or max(c.values())>2)
X
'''
