PROPERTY='C33'
NEEDS='trip ids are kept and the renaming of another kind is the slowest'
BREAKS='the feed is written while one kind of id is still being renamed'
EDITS=[('processors/idminimizer.go','	if minimizer.KeepPathways {\n\t\tj = j - 1','	if minimizer.KeepPathways || minimizer.KeepTrips {\n\t\tj = j - 1')]
DEMO='''
base
python3 - "$F" <<'Y'
import sys
f=sys.argv[1]
with open(f+'/stops.txt','w') as s:
    s.write('stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station\\n')
    for i in range(1,120001): s.write('S%d,Stop %d,48.0%d,7.85,,\\n'%(i,i,i))
Y
for i in 1 2 3 4 5 6 7 8 9 10; do
run -i --keep-trip-ids || fail "does not run"
has stops '(^|,)S[0-9]+(,|$)' && fail "ids not replaced"
has stop_times '(^|,)S[0-9]+(,|$)' && fail "ids not replaced"
done
exit 0
'''
