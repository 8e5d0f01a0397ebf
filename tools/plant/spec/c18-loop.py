PROPERTY='C18'
NEEDS='a shape that ends where it starts'
BREAKS='loops are reduced to a point'
EDITS=[('processors/util.go','''	if d == 0 {
		return dist(px, py, lax, lay)
	}
	t := ''','''	if d == 0 {
		return 0
	}
	t := ''')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,H
X
put shapes <<X
shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence
H,48.000000,7.850000,1
H,48.010000,7.860000,2
H,48.020000,7.870000,3
H,48.020000,7.850000,4
H,48.000000,7.850000,5
X
run -s || fail "run failed"
has shapes '48.02' || fail "the loop is gone"
'''
