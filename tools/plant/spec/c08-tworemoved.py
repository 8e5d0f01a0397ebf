PROPERTY='C08'
NEEDS='two removed dates in a row'
BREAKS='the second one of two removed dates in a row is operated'
EDITS=[('processors/servicecaldatesremover.go','''				ret = append(ret, service)
			}

			// new block start is the next day
			curBlockStart = first.GetOffsettedDate(1)
''','''				ret = append(ret, service)

				// new block start is the next day
				curBlockStart = first.GetOffsettedDate(1)
			}
''')]
DEMO='''
base
put calendar_dates <<X
service_id,date,exception_type
D,20230104,2
D,20230105,2
X
run --remove-cal-dates || fail "run failed"
python3 - "$O" <<X || fail "other dates"
import csv,sys,datetime as d
o=sys.argv[1]
act=set()
wd='monday,tuesday,wednesday,thursday,friday,saturday,sunday'.split(',')
f=lambda s:d.date(int(s[:4]),int(s[4:6]),int(s[6:]))
for r in csv.DictReader(open(o+'/calendar.txt')):
    x=f(r['start_date'])
    while x<=f(r['end_date']):
        if r[wd[x.weekday()]]=='1': act.add(x.day)
        x+=d.timedelta(1)
sys.exit(act!={2,3,6,9,10,11,12,13})
X
'''
