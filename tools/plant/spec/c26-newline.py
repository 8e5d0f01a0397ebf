PROPERTY='C26'
NEEDS='a polygon in a text file with one coordinate per line'
BREAKS='only the first line of the file is used'
EDITS=[('gtfstidy.go','polygonStrings = append(polygonStrings, string(bytes))','polygonStrings = append(polygonStrings, strings.Join(strings.Split(string(bytes), "\\n\\n")[:1], ""))')]
DEMO='''
base
printf '47.99,7.84,\\n47.99,7.865,\\n\\n48.015,7.865,\\n48.015,7.84\\n' > "$T/p.txt"
run --polygon-file "$T/p.txt" || fail "run failed"
has stops First && has stops Second || fail "stops inside are lost"
has stops Third && fail "stop outside"
exit 0
'''
