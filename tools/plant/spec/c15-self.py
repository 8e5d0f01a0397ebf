PROPERTY='C15'
NEEDS='a transfer of a stop to itself, at a stop that is merged into another one'
BREAKS='the transfer refers to the removed stop or is lost'
EDITS=[('processors/stopduplicateremover.go','''				tk_new.From_stop = ref
			}

			if tk.To_stop == s {''','''				tk_new.From_stop = ref
			} else if tk.To_stop == s {''')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon
S1,First,48.000000,7.850000
S1b,First,48.000000,7.850000
S2,Second,48.010000,7.860000
S3,Third,48.020000,7.870000
X
put transfers <<X
from_stop_id,to_stop_id,transfer_type,min_transfer_time
S1b,S1b,2,120
X
run -P || fail "run failed"
has transfers 'S1,S1,2' || has transfers 'S1,S1(,.*)?,120' || fail "the transfer is lost"
'''
