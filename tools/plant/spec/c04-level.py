PROPERTY='C04'
NEEDS='a compression level of 0'
BREAKS='the file is compressed nevertheless'
EDITS=[('gtfstidy.go','ZipCompressionLevel: *zipCompressionLevel, Sorted','ZipCompressionLevel: 9 - (9-*zipCompressionLevel)%9, Sorted')]
DEMO='''
base
"$T/gt" --zip-compression-level 0 -o "$T/a.zip" "$F" > /dev/null 2>&1 || fail "does not run"
"$T/gt" -o "$T/b.zip" "$F" > /dev/null 2>&1 || fail "does not run"
[ $(stat -c %s "$T/a.zip") -gt $(stat -c %s "$T/b.zip") ] || fail "level ignored"
exit 0
'''
