PROPERTY='C27'
NEEDS='--date-end without --date-start'
BREAKS='dates after the end are left'
EDITS=[('gtfstidy.go','opts.DateFilterEnd = endDate\n','if !startDate.IsEmpty() {\n\t\topts.DateFilterEnd = endDate\n\t}\n')]
DEMO='''
base
run --date-end 20230105 --explicit-calendar || fail "run failed"
has calendar 20230113 && ! has calendar_dates '20230113' && fail "dates after the end"
exit 0
'''
