PROPERTY='C30'
NEEDS='a stop whose id is the one a new station gets'
BREAKS='the new station replaces that stop'
EDITS=[('processors/stopreclusterer.go','if _, ok := feed.Stops[ret.Id]; !ok {','if s, ok := feed.Stops[ret.Id]; !ok || s.Parent_station != nil {')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
S1,First,48.000000,7.850000,,
S2,First,48.000100,7.850100,,
par::S1,Third,48.020000,7.870000,,P
par::S2,Other,48.020100,7.870000,,P
P,Third,48.020000,7.870000,1,
X
put stop_times <<X
trip_id,arrival_time,departure_time,stop_id,stop_sequence
T1,08:00:00,08:00:00,S1,1
T1,08:10:00,08:10:00,par::S1,2
T1,08:20:00,08:20:00,S2,3
T1,08:30:00,08:30:00,par::S2,4
X
run -E || fail "does not run"
[ "$(tail -n +2 "$O/stops.txt" | wc -l)" = 6 ] || fail "number of stops"
exit 0
'''
