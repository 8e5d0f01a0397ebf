PROPERTY='C26'
NEEDS='two polygon files, or a polygon file and a polygon'
BREAKS='only the last one counts'
EDITS=[('gtfstidy.go','''			polygonStrings = append(polygonStrings, string(bytes))''','''			polygonStrings = append(polygonStrings[:0:0], string(bytes))''')]
DEMO='''
base
echo "47.99,7.84,47.99,7.856,48.005,7.856,48.005,7.84" > "$T/p1.txt"
echo "48.015,7.86,48.015,7.88,48.03,7.88,48.03,7.86" > "$T/p2.txt"
run --polygon-file "$T/p1.txt" --polygon-file "$T/p2.txt" || fail "run failed"
has stops 'S1' || fail "the stop in the first area is lost"
has stops 'S3' || fail "the stop in the second area is lost"
has stops 'S2' && fail "a stop outside remains"
exit 0
'''
