PROPERTY='C22'
NEEDS='several feeds, an error in the second one'
BREAKS='the error handling options hold for the first feed only'
EDITS=[('gtfstidy.go','''			fmt.Print(")\\n")
''','''			fmt.Print(")\\n")
			if i == 0 && !opts.ShowWarnings {
				// defaults are reported with the first feed
				opts.UseDefValueOnError = false
				feed.SetParseOpts(opts)
			}
''')]
DEMO='''
base
cp -r "$F" "$T/in2"
cat > "$T/in2/routes.txt" <<X
route_id,agency_id,route_short_name,route_type,route_color
R1,A,1,3,zzzzzz
X
rm -rf "$O"; "$T/gt" --fix -o "$O" "$F" "$T/in2" > "$T/log" 2>&1 || fail "run failed"
[ "$(grep -c '#R1' "$O/routes.txt")" = 2 ] || fail "the route with the erroneous color is lost"
'''
