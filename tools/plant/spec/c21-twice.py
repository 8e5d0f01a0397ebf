PROPERTY='C21'
NEEDS='a trip that calls twice at a far stop, with different measures'
BREAKS='both calls are moved to the same position'
EDITS=[('processors/shapesnapper.go','''	for _, t := range feed.Trips {
		if t.Shape == nil {
			continue
		}

		for i, st := range t.StopTimes {
''','''	type snapKey struct {
		stop  *gtfs.Stop
		shape *gtfs.Shape
	}
	snapped := make(map[snapKey]*gtfs.Stop)

	for _, t := range feed.Trips {
		if t.Shape == nil {
			continue
		}

		for i, st := range t.StopTimes {
			if known, ok := snapped[snapKey{st.Stop(), t.Shape}]; ok {
				t.StopTimes[i].SetStop(known)
				continue
			}
'''),('processors/shapesnapper.go','''				t.StopTimes[i].SetStop(&newStop)
''','''				snapped[snapKey{st.Stop(), t.Shape}] = &newStop
				t.StopTimes[i].SetStop(&newStop)
''')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon
S1,First,48.000000,7.850000
S2,Second,48.010000,7.950000
S3,Third,48.020000,7.850000
X
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,H1
X
put shapes <<X
shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence,shape_dist_traveled
H1,48.000000,7.850000,1,0
H1,48.020000,7.850000,2,200
X
put stop_times <<X
trip_id,arrival_time,departure_time,stop_id,stop_sequence,shape_dist_traveled
T1,08:00:00,08:00:00,S1,1,0
T1,08:10:00,08:10:00,S2,2,50
T1,08:20:00,08:20:00,S2,3,150
T1,08:30:00,08:30:00,S3,4,200
X
run --snap-stops || fail "run failed"
python3 - "$O" <<X || fail "wrong positions"
import csv,sys
o=sys.argv[1]
s={r['stop_id']:float(r['stop_lat']) for r in csv.DictReader(open(o+'/stops.txt'))}
p=[s[r['stop_id']] for r in csv.DictReader(open(o+'/stop_times.txt'))]
sys.exit(not(abs(p[1]-48.005)<1e-4 and abs(p[2]-48.015)<1e-4))
X
'''
