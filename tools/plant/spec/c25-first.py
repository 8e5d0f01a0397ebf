PROPERTY='C25'
NEEDS='several feeds, with ids in the first one that look like prefixed ids of another one'
BREAKS='entities of different feeds are mixed up'
EDITS=[('gtfstidy.go','''			prefix := strconv.FormatInt(int64(i), 10) + "#"
''','''			prefix := ""
			if i > 0 {
				prefix = strconv.FormatInt(int64(i), 10) + "#"
			}
''')]
DEMO='''
base
sed -i 's/S3/1#S1/' "$F/stops.txt" "$F/stop_times.txt"
sed -i 's/Third/Special/' "$F/stops.txt"
cp -r "$F" "$T/in0"
base
"$T/gt" -o "$O" "$T/in0" "$F" > "$T/log" 2>&1 || fail "run failed"
[ "$(grep -c . "$O/stops.txt")" = 7 ] || fail "stops are lost"
'''
