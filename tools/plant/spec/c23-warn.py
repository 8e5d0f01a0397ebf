PROPERTY='C23'
NEEDS='-v together with -W'
BREAKS='an invalid feed is reported to have no errors'
EDITS=[('gtfstidy.go','''			e = locFeed.Parse(gtfsPath)

			if e != nil {''','''			e = locFeed.Parse(gtfsPath)

			if e != nil && opts.ShowWarnings {
				fmt.Fprintln(os.Stderr, e.Error())
				continue
			}

			if e != nil {''')]
DEMO='''
base
put trips <<X
route_id,service_id,trip_id
R1,D,T1
R9,D,T2
X
run -v -W && fail "no error"
exit 0
'''
