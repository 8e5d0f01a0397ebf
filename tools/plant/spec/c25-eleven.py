PROPERTY='C25'
NEEDS='more than ten input feeds'
BREAKS='entities of the eleventh feed get the ids of those of the first one'
EDITS=[('gtfstidy.go','prefix := strconv.FormatInt(int64(i), 10) + "#"','prefix := strconv.FormatInt(int64(i%10), 10) + "#"')]
DEMO='''
base
for i in 1 2 3 4 5 6 7 8 9 10; do cp -r "$F" "$T/f$i"; done
rm -rf "$O"
timeout 60 "$T/gt" -o "$O" "$T"/f[1-9] "$T/f10" "$F" > "$T/log" 2>&1 || fail "run failed"
[ "$(wc -l < "$O/trips.txt")" = 12 ] || fail "a trip is lost"
'''
