PROPERTY='C13'
NEEDS='two alike routes whose fare rules differ in contains_id only'
BREAKS='routes with different fares are merged'
EDITS=[('processors/routeduplicateremover.go','r.Origin_id == ra.Origin_id && r.Destination_id == ra.Destination_id && r.Contains_id == ra.Contains_id','r.Origin_id == ra.Origin_id && r.Destination_id == ra.Destination_id'),
('processors/routeduplicateremover.go','r.Origin_id == rb.Origin_id && r.Destination_id == rb.Destination_id && r.Contains_id == rb.Contains_id','r.Origin_id == rb.Origin_id && r.Destination_id == rb.Destination_id')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,zone_id
S1,First,48.000000,7.850000,Z1
S2,Second,48.010000,7.860000,Z2
S3,Third,48.020000,7.870000,Z3
X
put routes <<X
route_id,agency_id,route_short_name,route_type
R1,A,1,3
R2,A,1,3
X
put fare_attributes <<X
fare_id,price,currency_type,payment_method,transfers,agency_id
F0,1.00,EUR,0,0,A
X
put fare_rules <<X
fare_id,route_id,origin_id,destination_id,contains_id
F0,R1,Z1,Z2,Z1
F0,R2,Z1,Z2,Z3
X
run -R || fail "run failed"
[ "$(grep -c ',R[12]$' "$O/routes.txt")" = 2 ] || fail "a route is lost"
'''
