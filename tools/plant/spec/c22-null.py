PROPERTY='C22'
NEEDS='a stop at 0,0 and -n without -D'
BREAKS='the stop is accepted'
EDITS=[('gtfstidy.go','opts.CheckNullCoordinates = *checkNullCoords','opts.CheckNullCoordinates = *checkNullCoords && (*dropErroneousEntities || *onlyValidate)')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon
S1,First,48.000000,7.850000
S2,Second,48.010000,7.860000
S3,Third,0,0
X
run || fail "run failed"
run -n && fail "a stop at 0,0 is accepted"
exit 0
'''
