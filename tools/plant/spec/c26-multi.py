PROPERTY='C26'
NEEDS='a GeoJSON multi polygon'
BREAKS='only the first polygon of a multi polygon counts'
EDITS=[('gtfstidy.go','''					for _, poly := range feature.Geometry.MultiPolygon {
''','''					for _, poly := range feature.Geometry.MultiPolygon[:1] {
''')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon
S1,First,48.000000,7.850000
S2,Second,48.010000,7.860000
S3,Third,48.020000,7.870000
X
cat > "$T/p.geojson" <<X
{"type":"FeatureCollection","features":[{"type":"Feature","properties":{},"geometry":{"type":"MultiPolygon","coordinates":[
[[[7.845,47.995],[7.855,47.995],[7.855,48.005],[7.845,48.005],[7.845,47.995]]],
[[[7.855,48.006],[7.875,48.006],[7.875,48.025],[7.855,48.025],[7.855,48.006]]]]}}]}
X
run --polygon-file "$T/p.geojson" || fail "run failed"
has stop_times 'S1' || fail "S1 is inside"
has stop_times 'S3' || fail "S3 is inside"
'''
