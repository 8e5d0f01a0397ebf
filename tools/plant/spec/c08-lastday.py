PROPERTY='C08'
NEEDS='a removed date right before the last date of a service'
BREAKS='the last date is lost'
EDITS=[('processors/servicecaldatesremover.go','if (s.RawDaymap() > 0) && (curBlockStart.GetTime().Before(last.GetTime()) || curBlockStart.GetTime() == last.GetTime()) {','if (s.RawDaymap() > 0) && curBlockStart.GetTime().Before(last.GetTime()) {')]
DEMO='''
base
put calendar_dates <<X
service_id,date,exception_type
D,20230112,2
X
run --remove-cal-dates || fail "run failed"
has calendar '20230113,20230113' || has calendar '20230113' || fail "20230113 is lost"
'''
