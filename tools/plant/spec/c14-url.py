PROPERTY='C14'
NEEDS='two agencies that differ only in the path of their website'
BREAKS='they are merged, one website is lost'
EDITS=[('processors/agencyduplicateremover.go','(a.Url == b.Url || (a.Url != nil && b.Url != nil && *a.Url == *b.Url))','(a.Url == b.Url || (a.Url != nil && b.Url != nil && a.Url.Host == b.Url.Host))')]
DEMO='''
base
put agency <<X
agency_id,agency_name,agency_url,agency_timezone
A,Agency,http://a.example/north,Europe/Berlin
B,Agency,http://a.example/south,Europe/Berlin
X
put routes <<X
route_id,agency_id,route_short_name,route_type
R1,A,1,3
R2,B,2,3
X
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R2,D,T2
X
sed -n 's/^T1/T2/p' "$F/stop_times.txt" >> "$F/stop_times.txt"
run -A || fail "run failed"
has agency north || fail "lost"
has agency south || fail "lost"
'''
