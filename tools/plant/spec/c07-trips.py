PROPERTY='C07'
NEEDS='three equal services, the reference being not the first one'
BREAKS='trips refer to a service that is removed'
EDITS=[('processors/serviceduplicateremover.go','''	for _, s := range services {
		if s == ref {
			continue
		}

		for _, t := range trips[s] {''','''	for i, s := range services {
		if s == ref || (i > 2 && len(trips[s]) > 1) {
			continue
		}

		for _, t := range trips[s] {''')]
DEMO='''
base
{ echo service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,start_date,end_date
for i in 1 2 3 4 5 6 7 8; do echo D$i,1,1,1,1,1,0,0,20230102,20230113; done; } | put calendar
{ echo route_id,service_id,trip_id
for i in 1 2 3 4 5 6 7 8; do echo R1,D$i,T$i; echo R1,D$i,U$i; done; } | put trips
{ echo trip_id,arrival_time,departure_time,stop_id,stop_sequence
for i in 1 2 3 4 5 6 7 8; do for t in T U; do echo $t$i,08:00:00,08:00:00,S1,1; echo $t$i,08:10:00,08:10:00,S2,2; done; done; } | put stop_times
for k in 1 2 3 4 5; do
run -C || fail "run failed"
n=$(grep -c 2023 "$O/calendar.txt")
[ "$n" = 1 ] || fail "$n equal services remain"
done
'''
