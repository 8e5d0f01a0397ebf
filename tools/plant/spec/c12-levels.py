PROPERTY='C12'
NEEDS='-d with either --keep-station-ids or --keep-level-ids, and levels'
BREAKS='whether level ids are kept depends on the option for stations'
EDITS=[('gtfstidy.go','Base: 36, KeepStations: *keepStationIds, KeepBlocks: *keepBlockIds, KeepFares: *keepFareIds, KeepShapes: *keepShapeIds, KeepRoutes: *keepRouteIds, KeepTrips: *keepTripIds, KeepLevels: *keepLevelIds,','Base: 36, KeepStations: *keepStationIds, KeepBlocks: *keepBlockIds, KeepFares: *keepFareIds, KeepShapes: *keepShapeIds, KeepRoutes: *keepRouteIds, KeepTrips: *keepTripIds, KeepLevels: *keepStationIds,')]
DEMO='''
base
put levels <<X
level_id,level_index,level_name
LEV,0,Ground
X
run -d --keep-level-ids || fail "run failed"
has levels '^LEV,' || fail "the level id is not kept"
'''
