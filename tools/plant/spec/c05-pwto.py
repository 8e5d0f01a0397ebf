PROPERTY='C05'
NEEDS='a stop only referenced as the end of a pathway'
BREAKS='the stop (and the pathway with it) is deleted'
EDITS=[('processors/orphanminimizer.go','''		if s.To_stop != nil {
			referenced[s.To_stop] = empty{}
		}
	}
''','''		if s.To_stop != nil && s.Is_bidirectional {
			referenced[s.To_stop] = empty{}
		}
	}
''')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station
S1,First,48.000000,7.850000,0,P
S2,Second,48.010000,7.860000,0,
S3,Third,48.020000,7.870000,0,
P,Station,48.000000,7.850100,1,
N,Node,48.000000,7.850200,3,P
X
put pathways <<X
pathway_id,from_stop_id,to_stop_id,pathway_mode,is_bidirectional
W,S1,N,1,0
X
run -O || fail "run failed"
has stops Node || fail "node is lost"
exit 0
'''
