PROPERTY='C14'
NEEDS='at least three identical agencies that all have fares'
BREAKS='the fares of some merged agencies keep pointing to the deleted agency'
EDITS=[('processors/agencyduplicateremover.go','if fa.Agency == a {','if fa.Agency == agencies[0] {')]
DEMO='''
base
put agency <<X
agency_id,agency_name,agency_url,agency_timezone
A,Agency,http://a.example,Europe/Berlin
AA,Agency,http://a.example,Europe/Berlin
AB,Agency,http://a.example,Europe/Berlin
AC,Agency,http://a.example,Europe/Berlin
B,Other,http://b.example,Europe/Berlin
X
put fare_attributes <<X
fare_id,price,currency_type,payment_method,transfers,agency_id
F0,1.00,EUR,0,0,A
F1,2.00,EUR,0,0,AA
F2,3.00,EUR,0,0,AB
F3,4.00,EUR,0,0,AC
F4,5.00,EUR,0,0,B
X
run -A || fail "run failed"
python3 - "$O" <<X || fail "a fare of an agency that is not there"
import csv,sys
o=sys.argv[1]
a={r['agency_id'] for r in csv.DictReader(open(o+'/agency.txt'))}
f=[r['agency_id'] for r in csv.DictReader(open(o+'/fare_attributes.txt'))]
sys.exit(not(len(f)==5 and all(x in a for x in f)))
X
'''
