PROPERTY='C34'
NEEDS='-p together with --prefix or several feeds and a text with spaces'
BREAKS='only the first word of the replacement is used'
EDITS=[('gtfstidy.go','opts.EmptyStringRepl = *emptyStrRepl','opts.EmptyStringRepl = strings.SplitN(*emptyStrRepl, " ", 2)[0]')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon
S1,,48.000000,7.850000
S2,Second,48.010000,7.860000
S3,Third,48.020000,7.870000
X
run -p "not known" || fail "does not run"
grep -q "not known" "$O/stops.txt" || fail "not replaced"
exit 0
'''
