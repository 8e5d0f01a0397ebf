PROPERTY='C34'
NEEDS='--drop-shapes together with --snap-stops'
BREAKS='the shapes are not dropped'
EDITS=[('gtfstidy.go','opts.DropShapes = *dropShapes\n','opts.DropShapes = *dropShapes && !*useShapeSnapper\n')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,H
X
put shapes <<X
shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence
H,48.000000,7.850000,1
H,48.020000,7.870000,2
X
run --drop-shapes --snap-stops || fail "run failed"
has shapes '^H,|,H,|,H$' && fail "shapes are left"
exit 0
'''
