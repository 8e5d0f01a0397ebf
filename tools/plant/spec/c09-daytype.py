PROPERTY='C09'
NEEDS='two dates with the same weekday on which equally many trips run, the first and the last in id order being the same, but another one in between'
BREAKS='two dates with different trips become one day type: journeys move to other dates'
EDITS=[('processors/servicenonoverlapper.go','if slices.Equal(trips, existing.Trips) {','if slices.Equal(trips[:1], existing.Trips[:1]) && len(trips) == len(existing.Trips) && trips[len(trips)-1] == existing.Trips[len(trips)-1] {')]
DEMO='''
base
put calendar <<X
service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,start_date,end_date
D,1,0,0,0,0,0,0,20230102,20230110
E,1,0,0,0,0,0,0,20230102,20230103
G,1,0,0,0,0,0,0,20230109,20230110
X
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R1,E,T2
R1,G,T3
R1,D,T4
X
for i in 2 3 4; do cat >> "$F/stop_times.txt" <<X
T$i,0$i:00:00,0$i:00:00,S1,1
T$i,0$i:10:00,0$i:10:00,S2,2
T$i,0$i:20:00,0$i:20:00,S3,3
X
done
run --non-overlapping-services || fail "run failed"
has stop_times '03:00:00,03:00:00|3:00:00' || fail "the journey at 3 is lost"
'''
