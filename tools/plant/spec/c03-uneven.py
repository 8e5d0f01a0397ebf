PROPERTY='C03'
NEEDS='an odd number of coordinates'
BREAKS='an unusable polygon is accepted'
EDITS=[('gtfstidy.go','	if len(coords)%2 != 0 {','	if len(coords)%2 != 0 && len(coords) < 6 {')]
DEMO='''
base
run --polygon 47.9,7.8,47.9,7.9,48.1,7.9,48.1 && fail "accepted"
[ -e "$O/stops.txt" ] && fail "output written"
run --polygon 47.9,7.8,47.9,7.9,48.1,7.9,48.1,7.8 || fail "rejected"
exit 0
'''
