PROPERTY='C18'
NEEDS='a shape with more than a hundred points'
BREAKS='only a sample of the points of long shapes is looked at, deviating points in between are dropped'
EDITS=[('processors/shapeminimizer.go','for i := 1; i < len(points)-1; i++ {','for i := 1; i < len(points)-1; i += 1 + len(points)/100 {')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,H1
X
python3 - "$F" <<X
import sys
o=open(sys.argv[1]+'/shapes.txt','w')
o.write('shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence\\n')
for i in range(151): o.write('H1,%.6f,%.6f,%d\\n'%(48+(0.0003 if i==50 else 0),7.85+i*0.0001,i+1))
X
run -s || fail "run failed"
grep -q 48.0003 "$O/shapes.txt" || fail "a point 30 metres off the line is dropped"
'''
