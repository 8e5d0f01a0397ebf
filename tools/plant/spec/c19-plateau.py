PROPERTY='C19'
NEEDS='a gap between two equal measures'
BREAKS='points between equal measures get larger measures than the points after them'
EDITS=[('processors/shaperemeasurer.go','if i-lastMIndex > 1 {','if i-lastMIndex > 1 && localM > 0 {')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,H
X
put shapes <<X
shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence,shape_dist_traveled
H,48.000000,7.850000,1,0
H,48.005000,7.855000,2,10
H,48.010000,7.860000,3,
H,48.015000,7.865000,4,10
H,48.020000,7.870000,5,20
X
run -m || fail "run failed"
python3 - "$O/shapes.txt" <<X || fail "the measures are not increasing"
import csv,sys
r=sorted(csv.DictReader(open(sys.argv[1])),key=lambda x:int(x['shape_pt_sequence']))
m=[float(x['shape_dist_traveled']) for x in r]
sys.exit(m!=sorted(m) or len(m)!=5)
X
'''
