PROPERTY='C23'
NEEDS='-v together with -e and an error a default value can hide'
BREAKS='an erroneous feed passes the validation'
EDITS=[('gtfstidy.go','opts.UseDefValueOnError = *useDefaultValuesOnError && !*onlyValidate','opts.UseDefValueOnError = *useDefaultValuesOnError')]
DEMO='''
base
put stop_times <<X
trip_id,arrival_time,departure_time,stop_id,stop_sequence,continuous_pickup
T1,08:00:00,08:00:00,S1,1,9
T1,08:10:00,08:10:00,S2,2,0
X
timeout 60 "$T/gt" -v "$F" > "$T/log" 2>&1 && fail "no error without -e"
timeout 60 "$T/gt" -v -e "$F" > "$T/log" 2>&1 && fail "accepted with -e"
exit 0
'''
