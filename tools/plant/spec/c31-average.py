PROPERTY='C31'
NEEDS='a station with several children only some of which are far away'
BREAKS='whether a station is too far away is decided on its last child'
EDITS=[('processors/parentaverager.go','''			if !tooLarge && haversineApprox(float64(p.Lat), float64(p.Lon), float64(c.Lat), float64(c.Lon)) >= sdr.MaxDist {
				tooLarge = true
			}''','''			tooLarge = haversineApprox(float64(p.Lat), float64(p.Lon), float64(c.Lat), float64(c.Lon)) >= sdr.MaxDist''')]
DEMO='''
base
python3 - "$F" <<X
import sys
s=open(sys.argv[1]+'/stops.txt','w')
s.write('stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station\\n')
for i in range(1,4): s.write('S%d,Stop,48.000000,7.8%d0000,,\\n'%(i,i))
for k in range(12):
    s.write('P%d,Station,48.1%02d000,7.850000,1,\\n'%(k,k))
    s.write('P%da,Platform,48.1%02d500,7.850000,0,P%d\\n'%(k,k,k))
    s.write('P%db,Platform,48.1%02d950,7.850000,0,P%d\\n'%(k,k,k))
X
run --fix-far-away-parents || fail "run failed"
python3 - "$O" <<X || fail "a far away station is not moved"
import csv,sys
s={r['stop_id']:float(r['stop_lat']) for r in csv.DictReader(open(sys.argv[1]+'/stops.txt'))}
sys.exit(any(abs(s['P%d'%k]-(48.1+k/1000.+.000725))>2e-5 for k in range(12)))
X
'''
