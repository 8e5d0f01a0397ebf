PROPERTY='C30'
NEEDS='a merged station with generic nodes'
BREAKS='generic nodes keep the station that has been merged away as their parent'
EDITS=[('processors/stopreclusterer.go','''		if s.Location_type == 0 || s.Location_type == 2 || s.Location_type == 3 {
			s.Parent_station = parent''','''		if s.Location_type == 0 || s.Location_type == 2 {
			s.Parent_station = parent''')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
P,Main Station,48.000000,7.850000,1,
Q,Main Station,48.000010,7.850010,1,
S1,Main Station,48.000000,7.850000,,P
N1,Main Station,48.000000,7.850000,3,P
M1,Main Station,48.000010,7.850010,,Q
N2,Main Station,48.000010,7.850010,3,Q
S2,Second,48.010000,7.860000,,
S3,Third,48.020000,7.870000,,
X
run -E || fail "run failed"
python3 - "$O" <<X || fail "a node below a station that is not there"
import csv,sys
o=sys.argv[1]
s={r['stop_id']:r for r in csv.DictReader(open(o+'/stops.txt'))}
sys.exit(not(all(r['parent_station'] in s for r in s.values() if r['parent_station']) and 'N1' in s and 'N2' in s))
X
'''
