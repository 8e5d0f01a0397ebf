PROPERTY='C11'
NEEDS='attributions of two trips'
BREAKS='two attributions get the same id'
EDITS=[('processors/idminimizer.go','	for _, t := range feed.Trips {\n\t\tif t.Attributions == nil {\n\t\t\tcontinue\n\t\t}\n\t\tfor i, _ := range *t.Attributions {','	for _, t := range feed.Trips {\n\t\tif t.Attributions == nil {\n\t\t\tcontinue\n\t\t}\n\t\tidCount := idCount\n\t\tfor i, _ := range *t.Attributions {')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R1,D,T2
X
{ echo trip_id,arrival_time,departure_time,stop_id,stop_sequence
for t in 1 2; do echo T$t,0$t:00:00,0$t:00:00,S1,1; echo T$t,0$t:10:00,0$t:10:00,S2,2; done; } | put stop_times
put attributions <<X
attribution_id,organization_name,is_producer,trip_id
a,Org a,1,T1
b,Org b,1,T2
X
run -i || fail "does not run"
python3 - "$O" <<'Y' || fail "not unique"
import sys,csv
l=[r['attribution_id'] for r in csv.DictReader(open(sys.argv[1]+'/attributions.txt'))]
sys.exit(sorted(l)!=['1','2'])
Y
exit 0
'''
