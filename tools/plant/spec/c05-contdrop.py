PROPERTY='C05'
NEEDS='a trip where nobody may board at stops, but anywhere in between, and which can only be left at stops'
BREAKS='a trip that can be used is removed as orphan'
EDITS=[('processors/orphanminimizer.go','if st.Pickup_type() != 1 || st.Continuous_pickup() != 1 || s','if st.Pickup_type() != 1 || st.Continuous_drop_off() != 1 || s')]
DEMO='''
base
put stop_times <<X
trip_id,arrival_time,departure_time,stop_id,stop_sequence,pickup_type,drop_off_type,continuous_pickup,continuous_drop_off
T1,08:00:00,08:00:00,S1,1,1,0,0,1
T1,08:10:00,08:10:00,S2,2,1,0,0,1
T1,08:20:00,08:20:00,S3,3,1,0,0,1
X
run -O || fail "run failed"
has trips 'T1' || fail "T1 is lost"
'''
