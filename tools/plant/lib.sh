# demo helper: builds gtfstidy from the current directory into a scratch directory; feeds live there as well
set -u
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$T"' EXIT
go build -buildvcs=false -o "$T/gt" . || exit 99
F=$T/in; O=$T/out
mkdir -p "$F"
put() { cat > "$F/$1.txt"; }
base() { # a minimal feed
put agency <<X
agency_id,agency_name,agency_url,agency_timezone
A,Agency,http://a.example,Europe/Berlin
X
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
S1,First,48.000000,7.850000,,
S2,Second,48.010000,7.860000,,
S3,Third,48.020000,7.870000,,
X
put routes <<X
route_id,agency_id,route_short_name,route_type
R1,A,1,3
X
put calendar <<X
service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,start_date,end_date
D,1,1,1,1,1,0,0,20230102,20230113
X
put trips <<X
route_id,service_id,trip_id
R1,D,T1
X
put stop_times <<X
trip_id,arrival_time,departure_time,stop_id,stop_sequence
T1,08:00:00,08:00:00,S1,1
T1,08:10:00,08:10:00,S2,2
T1,08:20:00,08:20:00,S3,3
X
}
run() { rm -rf "$O"; timeout 60 "$T/gt" "$@" -o "$O" "$F" > "$T/log" 2>&1; }
fail() { echo "DEMO: $*"; exit 1; }
has() { grep -qE -- "$2" "$O/$1.txt" 2>/dev/null; }   # has <table> <regex>
