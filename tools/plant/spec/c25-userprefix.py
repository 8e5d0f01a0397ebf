PROPERTY='C25'
NEEDS='several feeds, a prefix and equal ids'
BREAKS='entities of different feeds are mixed up'
EDITS=[('gtfstidy.go','				prefix = *idPrefix + prefix','				prefix = *idPrefix + prefix[len(prefix)-1:]')]
DEMO='''
base
"$T/gt" --prefix p -o "$O" "$F" "$F" > /dev/null 2>&1 || fail "does not run"
[ "$(wc -l < "$O/stops.txt")" = 7 ] || fail "stops lost"
exit 0
'''
