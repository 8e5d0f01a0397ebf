PROPERTY='C28'
NEEDS='-F with additional fields of levels, several feeds or a prefix, and kept level ids'
BREAKS='the additional fields of levels are lost'
EDITS=[('gtfstidy.go','feed.LevelsAddFlds[k][oldId] = feed.LevelsAddFlds[k][id]','feed.LevelsAddFlds[k][oldId] = feed.LevelsAddFlds[k][s.Id+prefix]')]
DEMO='''
base
put levels <<X
level_id,level_index,level_name,level_colour
L,1,Upper,red
X
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,level_id
S1,First,48.000000,7.850000,L
S2,Second,48.010000,7.860000,
S3,Third,48.020000,7.870000,
X
run -F --prefix P --keep-level-ids || fail "run failed"
has levels 'red' || fail "the additional field is lost"
'''
