PROPERTY='C12'
NEEDS='--keep-pathway-ids with -d'
BREAKS='--keep-pathway-ids keeps the ids of levels with -d'
EDITS=[('gtfstidy.go','Base: 36, KeepStations: *keepStationIds, KeepBlocks: *keepBlockIds, KeepFares: *keepFareIds, KeepShapes: *keepShapeIds, KeepRoutes: *keepRouteIds, KeepTrips: *keepTripIds, KeepLevels: *keepLevelIds, KeepServices','Base: 36, KeepStations: *keepStationIds, KeepBlocks: *keepBlockIds, KeepFares: *keepFareIds, KeepShapes: *keepShapeIds, KeepRoutes: *keepRouteIds, KeepTrips: *keepTripIds, KeepLevels: *keepLevelIds || *keepPathwayIds, KeepServices')]
DEMO='''
base
put levels <<X
level_id,level_index,level_name
Lev,0,Ground
X
put stops <<X
stop_id,stop_name,stop_lat,stop_lon,location_type,parent_station,level_id
S1,First,48.000000,7.850000,0,,Lev
S2,Second,48.010000,7.860000,0,,
S3,Third,48.020000,7.870000,0,,
X
run -d --keep-pathway-ids || fail "run failed"
has levels Lev && fail "level id is kept"
exit 0
'''
