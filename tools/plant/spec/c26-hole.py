PROPERTY='C26'
NEEDS='a GeoJSON polygon with at least two holes'
BREAKS='only one hole of a polygon is left out'
EDITS=[('gtfstidy.go','''			inners[i-1][j] = [2]float64{c[0], c[1]}
''','''			inners[0][j%len(inners[0])] = [2]float64{c[0], c[1]}
''')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon
S1,First,48.000000,7.850000
S2,Second,48.010000,7.860000
S3,Third,48.020000,7.870000
S4,Fourth,48.030000,7.880000
X
cat >> "$F/stop_times.txt" <<X
T1,08:30:00,08:30:00,S4,4
X
cat > "$T/p.geojson" <<X
{"type":"FeatureCollection","features":[{"type":"Feature","properties":{},"geometry":{"type":"Polygon","coordinates":[
[[7,47],[9,47],[9,49],[7,49],[7,47]],
[[7.845,47.995],[7.855,47.995],[7.855,48.005],[7.845,48.005],[7.845,47.995]],
[[7.865,48.015],[7.875,48.015],[7.875,48.025],[7.865,48.025],[7.865,48.015]]]}}]}
X
run --polygon-file "$T/p.geojson" || fail "run failed"
has stop_times 'S1' && fail "S1 is in the first hole"
has stop_times 'S3' && fail "S3 is in the second hole"
has stop_times 'S2' || fail "S2 is inside"
has stop_times 'S4' || fail "S4 is inside"
'''
