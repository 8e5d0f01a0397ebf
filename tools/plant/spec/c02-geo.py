PROPERTY='C02'
NEEDS='--complete-filtered-trips and a transfer between stops of which one is dropped'
BREAKS='a transfer refers to a stop that is not there'
EDITS=[('processors/completegeotripsfilter.go','	// delete transfers\n\tfeed.CleanTransfers()','	// delete transfers\n\tif len(pathways) > 0 {\n\t\tfeed.CleanTransfers()\n\t}')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_lat,stop_lon
S1,First,48.000000,7.850000
S2,Second,48.010000,7.860000
S3,Third,48.020000,7.870000
S4,Fourth,49.020000,7.870000
X
printf 'from_stop_id,to_stop_id,transfer_type\\nS1,S4,0\\n' | put transfers
run --bounding-box 47.9,7.8,48.1,7.9 --complete-filtered-trips || fail "does not run"
has stops S4 && fail "S4 remains"
has transfers S4 && fail "transfer remains"
exit 0
'''
