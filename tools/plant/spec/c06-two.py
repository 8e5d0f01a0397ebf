PROPERTY='C06'
NEEDS='a service active on two days in a row only'
BREAKS='two exceptions remain where one weekly pattern is enough'
EDITS=[('processors/serviceminimizer.go','''	if newBegin == newEnd {
		// dont''','''	if !newEnd.After(sm.getNextDateTime(newBegin)) {
		// dont''')]
DEMO='''
base
rm "$F/calendar.txt"
{ echo service_id,date,exception_type; echo D,20240102,1; echo D,20240103,1; } | put calendar_dates
run -c || fail "run failed"
n=$(cat "$O/calendar.txt" "$O/calendar_dates.txt" 2>/dev/null | grep -c '^D,\\|,D,\\|,D$')
[ "$n" -le 1 ] || fail "$n entries, 1 is enough"
'''
