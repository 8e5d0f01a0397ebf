PROPERTY='C16'
NEEDS='trips on adjacent dates only one of which has a shape'
BREAKS='the trip takes over the shape but not all measures'
EDITS=[('processors/tripduplicateremover.go','''	for _, t := range trips {
		if t == ref {
			continue
		}

		if ref.Shape == nil && t.Shape != nil {
			ref.Shape = t.Shape

			// also update measurements
			for i := 0; i < len(ref.StopTimes); i++ {
				ref.StopTimes[i].SetShape_dist_traveled(t.StopTimes[i].Shape_dist_traveled())
			}
		}

		if t.Attributions != nil {
			if ref.Attributions == nil {
				sl := make([]*gtfs.Attribution, 0)
				ref.Attributions = &sl
			}
			for _, attr := range *t.Attributions {
				*ref.Attributions = append(*ref.Attributions, attr)
			}
		}

		for fld,''','''	for _, t := range trips {
		if t == ref {
			continue
		}

		if ref.Shape == nil && t.Shape != nil {
			ref.Shape = t.Shape

			// also update measurements
			for i := 0; i < len(ref.StopTimes)-1; i++ {
				ref.StopTimes[i].SetShape_dist_traveled(t.StopTimes[i].Shape_dist_traveled())
			}
		}

		if t.Attributions != nil {
			if ref.Attributions == nil {
				sl := make([]*gtfs.Attribution, 0)
				ref.Attributions = &sl
			}
			for _, attr := range *t.Attributions {
				*ref.Attributions = append(*ref.Attributions, attr)
			}
		}

		for fld,''')]
DEMO='''
base
put calendar <<X
service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,start_date,end_date
D,1,1,1,1,1,0,0,20230102,20230113
E,1,1,1,1,1,0,0,20230116,20230120
X
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,
R1,E,T2,H
X
put shapes <<X
shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence,shape_dist_traveled
H,48.000000,7.850000,1,0
H,48.020000,7.870000,2,300
X
put stop_times <<X
trip_id,arrival_time,departure_time,stop_id,stop_sequence,shape_dist_traveled
T1,08:00:00,08:00:00,S1,1,
T1,08:10:00,08:10:00,S2,2,
T1,08:20:00,08:20:00,S3,3,
T2,08:00:00,08:00:00,S1,1,11
T2,08:10:00,08:10:00,S2,2,150
T2,08:20:00,08:20:00,S3,3,299
X
for i in 1 2 3 4 5 6; do
run -I --red-trips-aggressive || fail "run failed"
[ $(wc -l < "$O/trips.txt") = 2 ] || continue
has stop_times '(,|^)299(,|$)' || fail "measure is missing"
done
exit 0
'''
