PROPERTY='C06'
NEEDS='a service whose regular period starts more than a year after its first date'
BREAKS='the regular period stays a list of single dates, because only ranges starting in the first year are tried'
EDITS=[('processors/serviceminimizer.go','''	for a := 0; a < l; a = a + 7 {''','''	for a := 0; a < l && a < 366; a = a + 7 {''')]
DEMO='''
base
rm "$F/calendar.txt"
{ echo service_id,date,exception_type; echo D,20220105,1
for d in 20240101 20240102 20240103 20240104 20240105 20240106 20240107 20240108 20240109 20240110 20240111 20240112 20240113 20240114; do echo D,$d,1; done; } | put calendar_dates
run -c || fail "run failed"
n=$(cat "$O/calendar.txt" "$O/calendar_dates.txt" 2>/dev/null | grep -c '^D,\\|,D,\\|,D$')
[ "$n" -le 2 ] || fail "$n entries, 2 are enough"
'''
