PROPERTY='C27'
NEEDS='a list of modes with an empty item'
BREAKS='the modes behind an empty item are ignored'
EDITS=[('gtfstidy.go','''			if len(s) == 0 {
				continue
			}
			i, err := strconv.Atoi(s)

			if err != nil {
				panic(fmt.Errorf("%s is not a valid GTFS MOT", s))
			}

			motFilterNeg[int16(i)] = true''','''			if len(s) == 0 {
				break
			}
			i, err := strconv.Atoi(s)

			if err != nil {
				panic(fmt.Errorf("%s is not a valid GTFS MOT", s))
			}

			motFilterNeg[int16(i)] = true''')]
DEMO='''
base
put routes <<X
route_id,agency_id,route_short_name,route_type
R1,A,1,3
R2,A,2,0
X
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R2,D,T2
X
sed -n 's/^T1/T2/p' "$F/stop_times.txt" > "$T/more"; cat "$T/more" >> "$F/stop_times.txt"
run -N '1,,3' || fail "run failed"
has trips T1 && fail "a bus trip is left"
has trips T2 || fail "the tram is lost"
exit 0
'''
