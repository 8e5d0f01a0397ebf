PROPERTY='C34'
NEEDS='--drop-shapes with several input feeds'
BREAKS='the shapes stay'
EDITS=[('gtfstidy.go','opts.DropShapes = *dropShapes','opts.DropShapes = *dropShapes && len(gtfsPaths) < 2')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,A
X
put shapes <<X
shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence
A,48.000000,7.850000,1
A,48.000000,7.852000,2
X
timeout 60 "$T/gt" --drop-shapes -o "$O" "$F" "$F" > "$T/log" 2>&1 || fail "does not run"
[ -e "$O/shapes.txt" ] && fail "shapes remain"
exit 0
'''
