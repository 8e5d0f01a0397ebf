PROPERTY='C33'
NEEDS='a worker that is slower than the others, at least two processors'
BREAKS='the processor goes on while one worker may still be simplifying shapes'
EDITS=[('processors/shapeminimizer.go','''	// wait for goroutines to finish
	for i := 0; i < len(chunks); i++ {''','''	// wait for goroutines to finish
	for i := 1; i < len(chunks); i++ {''')]
DEMO='''
go build -race -buildvcs=false -o "$T/gt" . || exit 99
base
put trips <<X
route_id,service_id,trip_id
R1,D,T1
X
python3 - "$F" <<X
import sys
o=open(sys.argv[1]+'/shapes.txt','w')
o.write('shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence\\n')
for s in range(8):
    for i in range(400): o.write('H%d,%.6f,%.6f,%d\\n'%(s,48+(i*i%97)*0.0003,7.85+i*0.0001,i+1))
X
for k in 1 2 3 4 5 6; do
GOMAXPROCS=4 run -s
grep -q 'DATA RACE' "$T/log" && fail "data race"
done
[ -f "$O/shapes.txt" ] || fail "no output"
'''
