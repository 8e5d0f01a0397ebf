PROPERTY='C13'
NEEDS='routes that are merged and a fare without any rules'
BREAKS='the fare is deleted'
EDITS=[('processors/routeduplicateremover.go','''			if len(new) == 0 && len(fa.Rules) != 0 {''','''			if len(new) == 0 {''')]
DEMO='''
base
put routes <<X
route_id,agency_id,route_short_name,route_type
R1,A,1,3
R2,A,1,3
X
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R2,D,T2
X
cat >> "$F/stop_times.txt" <<X
T2,09:00:00,09:00:00,S1,1
T2,09:10:00,09:10:00,S2,2
X
put fare_attributes <<X
fare_id,price,currency_type,payment_method,transfers
FA,2.50,EUR,0,0
X
run -R || fail "run failed"
has fare_attributes 'FA' || fail "the fare is lost"
'''
