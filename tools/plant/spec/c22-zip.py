PROPERTY='C22'
NEEDS='--fix on several feeds one of which is a ZIP file with its tables in a folder'
BREAKS='the feed is rejected although -z is given'
EDITS=[('gtfstidy.go','opts.ZipFix = *fixZip\n','opts.ZipFix = *fixZip && len(gtfsPaths) == 1\n')]
DEMO='''
base
cp -r "$F" "$T/second"
python3 -c "
import shutil,sys
t=sys.argv[1]
shutil.copytree(t+'/in',t+'/z/deep'); shutil.make_archive(t+'/in3','zip',t+'/z')" "$T"
rm -rf "$O"
timeout 60 "$T/gt" --fix -o "$O" "$T/in3.zip" "$T/second" > "$T/log" 2>&1 || fail "rejected"
[ $(wc -l < "$O/trips.txt") = 3 ] || fail "trips are lost"
'''
