PROPERTY='C12'
NEEDS='several feeds, and a stop whose id contains the separator of the prefix'
BREAKS='the restored id of the stop lacks its first part'
EDITS=[('gtfstidy.go','''						oldId := strings.TrimPrefix(id, prefix)
						if _, ok := feed.Stops[oldId]; !ok {''','''						oldId := id[strings.LastIndex(id, "#")+1:]
						if _, ok := feed.Stops[oldId]; !ok {''')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon
S1,First,48.000000,7.850000
S2#north,Second,48.010000,7.860000
S3,Third,48.020000,7.870000
X
sed -i 's/,S2,/,S2#north,/' "$F/stop_times.txt"
cp -r "$F" "$T/in2"
sed -i 's/^\\(S[13]\\)/X\\1/;s/S2#north/XS2/' "$T/in2/stops.txt"
sed -i 's/,\\(S[13]\\),/,X\\1,/;s/,S2#north,/,XS2,/' "$T/in2/stop_times.txt"
timeout 60 "$T/gt" --keep-ids -o "$O" "$F" "$T/in2" > "$T/log" 2>&1 || fail "run failed"
for s in S1 'S2#north' S3; do grep -q ",$s,48" "$O/stops.txt" || fail "$s is missing"; done
'''
