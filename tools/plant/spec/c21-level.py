PROPERTY='C21'
NEEDS='a stop with a level that is too far from the shape of a trip'
BREAKS='the copy of the stop has no level'
EDITS=[('processors/shapesnapper.go','					Level:               st.Stop().Level,\n','')]
DEMO='''
base
put levels <<X
level_id,level_index,level_name
L,1,Upper
X
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,level_id
S1,First,48.000000,7.850000,
S2,Second,48.010000,7.900000,L
S3,Third,48.020000,7.850000,
X
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,H
X
put shapes <<X
shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence
H,48.000000,7.850000,1
H,48.020000,7.850000,2
X
run --snap-stops || fail "run failed"
python3 - "$O" <<X || fail "the copy is different"
import csv,sys
r=[r for r in csv.DictReader(open(sys.argv[1]+'/stops.txt')) if r['stop_name']=='Second']
sys.exit(len(r)<2 or any(x['level_id']!='L' for x in r))
X
'''
