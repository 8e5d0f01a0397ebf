PROPERTY='C18'
NEEDS='a shape of three points, there and back'
BREAKS='points whose neighbours are at the same place are dropped'
EDITS=[('processors/shapeminimizer.go','''		d := perpendicularDist(px, py, lax, lay, lbx, lby)
''','''		d := perpendicularDist(px, py, lax, lay, lbx, lby)
		if len(points) == 3 && lax == lbx && lay == lby {
			// a spike
			d = 0
		}
''')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,H
X
put shapes <<X
shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence
H,48.010000,7.850000,1
H,48.010000,7.860000,2
H,48.010000,7.850000,3
X
run -s || fail "run failed"
has shapes '7.86' || fail "a branch of 700 m is dropped"
exit 0
'''
