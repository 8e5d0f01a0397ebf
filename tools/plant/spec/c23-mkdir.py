PROPERTY='C23'
NEEDS='-v together with an output directory that does not exist'
BREAKS='the output directory is created'
EDITS=[('gtfstidy.go','''	if *onlyValidate {
		for _, gtfsPath''','''	if *onlyValidate {
		if flag.CommandLine.Changed("output") && len(*outputPath) > 0 && path.Ext(*outputPath) != ".zip" && *emptyStrRepl != "" {
			os.MkdirAll(*outputPath, os.ModePerm)
		}
		for _, gtfsPath''')]
DEMO='''
base
run -v -p x || fail "run failed"
[ -e "$O" ] && fail "output created"
exit 0
'''
