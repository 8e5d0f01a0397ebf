PROPERTY='C21'
NEEDS='a stop a bit less than the limit away from its shape, far from the equator'
BREAKS='the distance is measured in the projection, in which it is longer: stops within the limit are replaced'
EDITS=[('processors/shapesnapper.go','''			d := haversineApprox(float64(snaplat), float64(snaplon), float64(st.Stop().Lat), float64(st.Stop().Lon))
''','''			sx, sy := latLngToWebMerc(snaplat, snaplon)
			d := dist(sx, sy, sm.stopMercs[st.Stop()][0], sm.stopMercs[st.Stop()][1])
''')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon
S1,First,48.000000,7.851070
S2,Second,48.010000,7.851070
S3,Third,48.020000,7.850000
X
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,H1
X
put shapes <<X
shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence
H1,47.990000,7.850000,1
H1,48.030000,7.850000,2
X
run --snap-stops || fail "run failed"
[ "$(wc -l < "$O/stops.txt")" = 4 ] || fail "stops within the limit were replaced"
'''
