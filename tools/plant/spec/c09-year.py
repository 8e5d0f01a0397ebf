PROPERTY='C09'
NEEDS='a service with a date range and an added date behind it'
BREAKS='dates behind the last regular one are lost'
EDITS=[('processors/servicenonoverlapper.go','''		last := t.Service.GetLastDefinedDate()
''','''		last := t.Service.GetLastActiveDate()
		if t.Service.RawDaymap() > 0 && !t.Service.End_date().IsEmpty() && t.Service.Exceptions()[last] && last.GetTime().Sub(t.Service.End_date().GetTime()).Hours() > 24*366 {
			last = t.Service.End_date()
		}
''')]
DEMO='''
base
put calendar_dates <<X
service_id,date,exception_type
D,20250304,1
X
run --non-overlapping-services || fail "run failed"
has calendar_dates 20250304 || fail "date is lost"
exit 0
'''
