PROPERTY='C20'
NEEDS='two calls next to the same segment, in the order opposite to its direction'
BREAKS='the positions of the calls decrease along the trip'
EDITS=[('processors/stoptimeremeasurer.go','''(cands[i][j].Seg > cands[i+1][k].Seg || (cands[i][j].Seg == cands[i+1][k].Seg && cands[i][j].Progr > cands[i+1][k].Progr)) {''','''cands[i][j].Seg > cands[i+1][k].Seg {''')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon
S1,First,48.001000,7.850000
S2,Second,48.000500,7.850000
S3,Third,48.003000,7.850000
X
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,H1
X
put shapes <<X
shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence,shape_dist_traveled
H1,48.000000,7.850000,1,0
H1,48.002000,7.850000,2,200
H1,48.004000,7.850000,3,400
X
run -r || fail "run failed"
python3 - "$O" <<X || exit 1
import sys,csv
v=[c['shape_dist_traveled'] for c in csv.DictReader(open(sys.argv[1]+'/stop_times.txt'))]
v=[float(x) for x in v if x]
if v!=sorted(v): print('DEMO',v); sys.exit(1)
X
'''
