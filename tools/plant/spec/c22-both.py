PROPERTY='C22'
NEEDS='-e together with -D (as in --fix) and an erroneous optional field'
BREAKS='entities with an erroneous optional field are dropped instead of falling back to the default'
EDITS=[('gtfstidy.go','opts.UseDefValueOnError = *useDefaultValuesOnError && !*onlyValidate','opts.UseDefValueOnError = *useDefaultValuesOnError && !*onlyValidate && !(*dropErroneousEntities && len(*emptyStrRepl) == 0)')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id,wheelchair_accessible
R1,D,T1,9
X
run -e -D || fail "run failed"
has trips 'T1' || fail "T1 is dropped"
'''
