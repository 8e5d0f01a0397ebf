PROPERTY='C20'
NEEDS='a stop between 170 and 250 metres west of its shape, north of the tropics'
BREAKS='segments within the search radius are not found, the trip is not measured'
EDITS=[('processors/stoptimeremeasurer.go','lonSearchEnd := float32(float64(lon) + ((searchRad / mPerDeg) / latLngDistFactor))','lonSearchEnd := float32(float64(lon) + (searchRad / mPerDeg))')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon
S1,First,48.000000,7.850000
S2,Second,48.010000,7.847000
S3,Third,48.020000,7.850000
X
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,H1
X
put shapes <<X
shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence,shape_dist_traveled
H1,48.000000,7.850000,1,0
H1,48.005000,7.850000,2,50
H1,48.020000,7.850000,3,200
X
run -r || fail "run failed"
grep -qE 'S2.*,(99|100)' "$O/stop_times.txt" || fail "S2 is not measured"
'''
