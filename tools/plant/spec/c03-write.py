PROPERTY='C03'
NEEDS='an output that cannot be written'
BREAKS='a failure to write the output ends with exit status 0'
EDITS=[('gtfstidy.go','''			fmt.Fprintf(os.Stderr, "\\nError while writing GTFS feed in '%s':\\n ", *outputPath)
			fmt.Fprintln(os.Stderr, e.Error())
			os.Exit(1)
''','''			fmt.Fprintf(os.Stderr, "\\nError while writing GTFS feed in '%s':\\n ", *outputPath)
			fmt.Fprintln(os.Stderr, e.Error())
			return
''')]
DEMO='''
base
echo x > "$T/file"
"$T/gt" -o "$T/file/out" "$F" > "$T/log" 2>&1 && fail "exit status 0 without output"
"$T/gt" -o "$T/out" "$F" > "$T/log" 2>&1 || fail "run failed"
'''
