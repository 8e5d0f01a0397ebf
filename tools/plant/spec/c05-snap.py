PROPERTY='C05'
NEEDS='-O together with --snap-stops that leaves a stop unused'
BREAKS='a stop that nothing references any more remains'
EDITS=[('gtfstidy.go','''			// may have created route and stop orphans
			if *useOrphanDeleter {
				minzers = append(minzers, processors.OrphanRemover{})
			}
		}

		if *useRedShapeRemover {''','''			// may have created stop duplicates
			if *useOrphanDeleter && *useRedStopMinimizer {
				minzers = append(minzers, processors.OrphanRemover{})
			}
		}

		if *useRedShapeRemover {''')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id,shape_id
R1,D,T1,H
X
put shapes <<X
shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence
H,48.000000,7.850000,1
H,48.010000,7.850000,2
H,48.020000,7.870000,3
X
run -O --snap-stops || fail "run failed"
has stops '7.86[0 ,]*,|7.86$' && fail "unused stop"
exit 0
'''
