PROPERTY='C05'
NEEDS='an agency without routes that sells a fare without rules'
BREAKS='an agency a fare refers to is removed as orphan'
EDITS=[('processors/orphanminimizer.go','if fa.Agency != nil {','if fa.Agency != nil && len(fa.Rules) > 0 {')]
DEMO='''
base
put agency <<X
agency_id,agency_name,agency_url,agency_timezone
A,Agency,http://a.example,Europe/Berlin
B,Bgency,http://b.example,Europe/Berlin
X
put fare_attributes <<X
fare_id,price,currency_type,payment_method,transfers,agency_id
F0,1.00,EUR,0,0,B
X
run -O || fail "run failed"
has agency 'Bgency' || fail "B is lost"
has fare_attributes 'F0' || fail "F0 is lost"
'''
