PROPERTY='C27'
NEEDS='a list of modes with an empty element'
BREAKS='the modes after the empty element are ignored'
EDITS=[('gtfstidy.go','			s = strings.TrimSpace(s)\n\t\t\tif len(s) == 0 {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\ti, err := strconv.Atoi(s)\n\n\t\t\tif err != nil {\n\t\t\t\tpanic(fmt.Errorf("%s is not a valid GTFS MOT", s))\n\t\t\t}\n\n\t\t\tmotFilterNeg[','			s = strings.TrimSpace(s)\n\t\t\tif len(s) == 0 {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\ti, err := strconv.Atoi(s)\n\n\t\t\tif err != nil {\n\t\t\t\tpanic(fmt.Errorf("%s is not a valid GTFS MOT", s))\n\t\t\t}\n\n\t\t\tmotFilterNeg[')]
DEMO='''
base
put routes <<X
route_id,agency_id,route_short_name,route_type
R1,A,1,3
R2,A,2,0
X
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R2,D,T2
X
{ echo trip_id,arrival_time,departure_time,stop_id,stop_sequence
for t in 1 2; do echo T$t,0$t:00:00,0$t:00:00,S1,1; echo T$t,0$t:10:00,0$t:10:00,S2,2; done; } | put stop_times
run -N 1,,0 || fail "does not run"
has routes R2 && fail "not dropped"
exit 0
'''
