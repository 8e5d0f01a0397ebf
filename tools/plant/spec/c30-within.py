PROPERTY='C30'
NEEDS='a transfer within a station that is merged into another one'
BREAKS='only one side of the transfer is moved, the transfer is lost'
EDITS=[('processors/stopreclusterer.go','''				tk_new.From_stop = parent
			}
			if tk.To_stop == st {''','''				tk_new.From_stop = parent
			} else if tk.To_stop == st {''')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
P1,Central Square,48.000000,7.850000,1,
P2,Central Square,48.000010,7.850000,1,
S1,Central Square,48.000000,7.850000,,P1
S2,Central Square,48.000010,7.850000,,P2
S3,Elsewhere,48.020000,7.870000,,
X
put transfers <<X
from_stop_id,to_stop_id,transfer_type,min_transfer_time
P1,P1,2,120
P2,P2,2,240
X
for k in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16; do
run -E || fail "run failed"
[ "$(grep -c '^P[12]\\|,P[12]' "$O/stops.txt")" -ge 1 ] || fail "no station"
[ -s "$O/transfers.txt" ] || fail "transfers lost"
for q in $(grep -o 'P[12]' "$O/transfers.txt" | sort -u); do grep -q "Central Square.*,$q," "$O/stops.txt" || fail "a transfer refers to a removed station"; done
"$T/gt" -v "$O" > /dev/null 2>&1 || fail "output is invalid"
done
'''
