PROPERTY='C20'
NEEDS='a trip that has a measure at its first call, but not at a later one'
BREAKS='the missing measures are not filled'
EDITS=[('processors/stoptimeremeasurer.go','''				if !st.HasDistanceTraveled() {
					fixTrips = append(fixTrips, t)
					break
				}
''','''				if !st.HasDistanceTraveled() {
					fixTrips = append(fixTrips, t)
				}
				break
''')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,H
X
put shapes <<X
shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence,shape_dist_traveled
H,48.000000,7.850000,1,0
H,48.010000,7.860000,2,1000
H,48.020000,7.870000,3,2000
X
put stop_times <<X
trip_id,arrival_time,departure_time,stop_id,stop_sequence,shape_dist_traveled
T1,08:00:00,08:00:00,S1,1,0
T1,08:10:00,08:10:00,S2,2,
T1,08:20:00,08:20:00,S3,3,
X
run -r || fail "run failed"
python3 - "$O" <<X || fail "a measure is missing"
import csv,sys
sys.exit(any(not r.get('shape_dist_traveled') for r in csv.DictReader(open(sys.argv[1]+'/stop_times.txt'))))
X
'''
