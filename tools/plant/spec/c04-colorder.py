PROPERTY='C04'
NEEDS='--keep-col-order together with -F'
BREAKS='the order of the columns is not kept'
EDITS=[('gtfstidy.go','KeepColOrder: *keepColOrder}','KeepColOrder: *keepColOrder && !*keepFields}')]
DEMO='''
base
put stops <<X
stop_lon,stop_id,x_a,stop_lat,stop_name
7.850000,S1,v,48.000000,First
7.860000,S2,w,48.010000,Second
7.870000,S3,u,48.020000,Third
X
run --keep-col-order -F || fail "does not run"
[ "$(head -1 "$O/stops.txt")" = stop_lon,stop_id,x_a,stop_lat,stop_name ] || fail "order of columns changed: $(head -1 "$O/stops.txt")"
exit 0
'''
