PROPERTY='C32'
NEEDS='a trip with several long sections'
BREAKS='the distance of earlier sections is counted again, plausible trips are removed'
EDITS=[('processors/toofasttripremover.go','''			if inter != 0 {
				last = t.StopTimes[i]
				dist = 0
			}''','''			if inter != 0 {
				last = t.StopTimes[i]
			}''')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon
S1,First,48.000000,7.850000
S2,Second,48.100000,7.850000
S3,Third,48.280000,7.850000
X
run --drop-too-fast-trips || fail "run failed"
has trips T1 || fail "plausible trip removed"
'''
