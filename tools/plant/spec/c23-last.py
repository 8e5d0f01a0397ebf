PROPERTY='C23'
NEEDS='validation of several feeds, one of which but not the last has an error'
BREAKS='the verdict is that of the last feed'
EDITS=[('gtfstidy.go','''				fmt.Fprintf(os.Stderr, "\\nError while parsing GTFS feed:\\n")
				fmt.Fprintln(os.Stderr, e.Error())
				os.Exit(1)
			}
			if opts.ShowWarnings {''','''				fmt.Fprintf(os.Stderr, "\\nError while parsing GTFS feed:\\n")
				fmt.Fprintln(os.Stderr, e.Error())
				continue
			}
			if opts.ShowWarnings {'''),('gtfstidy.go','''		fmt.Fprintln(os.Stdout, "No errors.")
		os.Exit(0)
''','''		if e != nil {
			os.Exit(1)
		}
		fmt.Fprintln(os.Stdout, "No errors.")
		os.Exit(0)
''')]
DEMO='''
base
cp -r "$F" "$T/bad"
echo 'R1,D,T2,9x' >> "$T/bad/trips.txt"
echo 'T2,xx,09:00:00,S1,1' >> "$T/bad/stop_times.txt"
"$T/gt" -v "$F" "$F" >/dev/null 2>&1 || fail "valid feeds are rejected"
"$T/gt" -v "$F" "$T/bad" >/dev/null 2>&1 && fail "an error in the last feed is missed"
"$T/gt" -v "$T/bad" "$F" >/dev/null 2>&1 && fail "an error in the first feed is missed"
true
'''
