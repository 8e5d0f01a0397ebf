PROPERTY='C04'
NEEDS='an input with spaces before quoted values'
BREAKS='the text of values is changed although no processor is active'
EDITS=[('gtfstidy.go','opts.KeepAddFlds = *keepFields','opts.KeepAddFlds = *keepFields\n\topts.RemoveFillers = *removeFillers || *zipCompressionLevel == 0')]
DEMO='''
base
put stops <<X
stop_id,stop_name,stop_code,stop_desc,stop_lat,stop_lon
S1,First,-,?,48.000000,7.850000
S2,Second,..,.,48.010000,7.860000
S3,Third,X,-,48.020000,7.870000
X
O="$T/out.zip"
run --zip-compression-level 0 || fail "run failed"
mkdir "$T/x"
python3 -c "import zipfile,sys; zipfile.ZipFile(sys.argv[1]).extractall(sys.argv[2])" "$O" "$T/x"
grep -q '?' "$T/x/stops.txt" || fail "a value is lost"
'''
