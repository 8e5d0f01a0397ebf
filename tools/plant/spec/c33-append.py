PROPERTY='C33'
NEEDS='several processors and several equal stops, found at the same time'
BREAKS='concurrent appends to one slice: results depend on the scheduling'
EDITS=[('processors/stopduplicateremover.go','rets[j] = append(rets[j], s)','rets[0] = append(rets[0], s)')]
DEMO='''
base
export CGO_ENABLED=1
go build -race -buildvcs=false -o "$T/gt" . || exit 0
python3 - "$F" <<X
import sys
s=open(sys.argv[1]+'/stops.txt','w')
s.write('stop_id,stop_name,stop_lat,stop_lon\\n')
for i in range(1,4): s.write('S%d,Stop,48.000000,7.8%d0000\\n'%(i,i))
for i in range(400): s.write('E%d,Equal,48.1,7.9\\n'%i)
X
GOMAXPROCS=4 run -P
grep -q 'DATA RACE' "$T/log" && fail "data race"
exit 0
'''
