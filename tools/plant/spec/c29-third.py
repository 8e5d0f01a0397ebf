PROPERTY='C29'
NEEDS='three or more consecutive calls at one stop with different times'
BREAKS='only pairs of calls are grouped, longer runs remain split'
EDITS=[('processors/adjstoptimegrouper.go','''				newSt = append(newSt, t.StopTimes[i])
			}
		}

		t.StopTimes = newSt''','''				newSt = append(newSt, t.StopTimes[i])
			}
		}

		if grouped > 0 && len(newSt) == 1 {
			// never leave a trip with a single stop time
			continue
		}

		t.StopTimes = newSt''')]
DEMO='''
base
put stop_times <<X
trip_id,arrival_time,departure_time,stop_id,stop_sequence
T1,08:00:00,08:00:00,S1,1
T1,08:10:00,08:10:00,S1,2
X
run --group-adj-stop-times || fail "run failed"
[ "$(grep -c ^T1 "$O/stop_times.txt")" = 1 ] || fail "calls at the same stop are not grouped"
'''
