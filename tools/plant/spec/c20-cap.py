PROPERTY='C20'
NEEDS='a shape with many points within the search radius of a call'
BREAKS='only some of the closest segments are considered, calls are placed too far away or not at all'
EDITS=[('processors/stoptimeremeasurer.go','''			return cands[i][j].Dist < cands[i][k].Dist
		})
''','''			return cands[i][j].Dist < cands[i][k].Dist
		})

		// distant candidates are never used
		if len(cands[i]) > 16 {
			cands[i] = cands[i][:16]
		}
''')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,H1
X
python3 - "$F" <<X
import sys
d=sys.argv[1]
s=open(d+'/shapes.txt','w'); s.write('shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence,shape_dist_traveled\\n')
n=0
# way out, slightly off, then back along all stops' other side
pts=[(48+i*0.00005,7.85+0.0001) for i in range(41)]+[(48+(40-i)*0.00005,7.85+0.001) for i in range(41)]
for i,(a,b) in enumerate(pts): s.write('H1,%.6f,%.6f,%d,%d\\n'%(a,b,i+1,i*10))
o=open(d+'/stops.txt','w'); o.write('stop_id,stop_name,stop_lat,stop_lon\\nS1,First,48.0,7.85\\nS2,Second,48.001,7.85\\nS3,Third,48.0002,7.85\\n')
X
run -r || fail "run failed"
python3 - "$O" <<X || exit 1
import sys,csv
v=[c['shape_dist_traveled'] for c in csv.DictReader(open(sys.argv[1]+'/stop_times.txt'))]
if '' in v: print('DEMO not measured',v); sys.exit(1)
v=[float(x) for x in v]
if not (v[0]<=v[1]<=v[2]) or v[2]<400: print('DEMO',v); sys.exit(1)
X
'''
