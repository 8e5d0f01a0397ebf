PROPERTY='C16'
NEEDS='trips with the same calls on adjacent dates, one of a service that is shared and has removed dates'
BREAKS='the trip operates on dates that were removed'
EDITS=[('processors/tripduplicateremover.go','''		for k, v := range ref.Service.Exceptions() {
			newService.Exceptions()[k] = v
		}
		newService.SetRawDaymap(ref.Service.RawDaymap())

		for ; ; m.serviceIdC++ {
			newService.SetId("merged" + strconv.Itoa(m.serviceIdC))
			if _, ok := feed.Services[newService.Id()]; !ok {
				break
			}
		}

		m.serviceRefs[ref.Service]--
		ref.Service = newService''','''		for k, v := range ref.Service.Exceptions() {
			if v {
				newService.Exceptions()[k] = v
			}
		}
		newService.SetRawDaymap(ref.Service.RawDaymap())

		for ; ; m.serviceIdC++ {
			newService.SetId("merged" + strconv.Itoa(m.serviceIdC))
			if _, ok := feed.Services[newService.Id()]; !ok {
				break
			}
		}

		m.serviceRefs[ref.Service]--
		ref.Service = newService''')]
DEMO='''
base
put calendar <<X
service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,start_date,end_date
D,1,1,1,1,1,0,0,20230102,20230113
E,1,1,1,1,1,0,0,20230116,20230120
X
put calendar_dates <<X
service_id,date,exception_type
D,20230105,2
E,20230118,2
X
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R1,E,T2
R1,D,T3
R1,E,T4
X
sed -n 's/^T1/T2/p' "$F/stop_times.txt" > "$T/more"
sed -n 's/^T1/T3/p;s/^T1/T4/p' "$F/stop_times.txt" | sed 's/,08:/,09:/g' >> "$T/more"
sed -n 's/^T1/T4/p' "$F/stop_times.txt" | sed 's/,08:/,09:/g' >> "$T/more"; cat "$T/more" >> "$F/stop_times.txt"
python3 - "$F" <<X
import sys
p=sys.argv[1]+'/stop_times.txt'
ls=list(dict.fromkeys(open(p).read().split('\\n')))
open(p,'w').write('\\n'.join(ls)+'\\n')
X
for i in 1 2 3 4 5 6; do
run -I --red-trips-aggressive || fail "run failed"
python3 - "$O" <<X || fail "removed date is back"
import csv,sys,datetime as d,os
o=sys.argv[1]
wd='monday,tuesday,wednesday,thursday,friday,saturday,sunday'.split(',')
f=lambda s:d.date(int(s[:4]),int(s[4:6]),int(s[6:]))
act={}
for r in csv.DictReader(open(o+'/calendar.txt')):
    x=f(r['start_date']); s=act.setdefault(r['service_id'],set())
    while x<=f(r['end_date']):
        if r[wd[x.weekday()]]=='1': s.add(x)
        x+=d.timedelta(1)
if os.path.exists(o+'/calendar_dates.txt'):
    for r in csv.DictReader(open(o+'/calendar_dates.txt')):
        s=act.setdefault(r['service_id'],set())
        (s.add if r['exception_type']=='1' else s.discard)(f(r['date']))
n=sum(len(act.get(r['service_id'],())) for r in csv.DictReader(open(o+'/trips.txt')))
sys.exit(n!=2*(9+4))
X
done
exit 0
'''
