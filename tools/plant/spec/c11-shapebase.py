PROPERTY='C11'
NEEDS='-d on a feed with at least ten shapes'
BREAKS='shapes get decimal numbers instead of dense ones in base 36'
EDITS=[('processors/idminimizer.go','''	for _, s := range feed.Shapes {
		oldId := s.Id
		newId := minimizer.Prefix + strconv.FormatInt(idCount, minimizer.Base)
''','''	for _, s := range feed.Shapes {
		oldId := s.Id
		newId := minimizer.Prefix + strconv.FormatInt(idCount, 10)
''')]
DEMO='''
base
python3 - "$F" <<X
import sys
o=open(sys.argv[1]+'/shapes.txt','w')
o.write('shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence\\n')
for s in range(12):
    for i in range(3): o.write('H%d,%.6f,%.6f,%d\\n'%(s,48+s*0.01,7.85+i*0.001,i+1))
X
run -d || fail "run failed"
has shapes '^a,' || fail "no shape with the id a"
'''
