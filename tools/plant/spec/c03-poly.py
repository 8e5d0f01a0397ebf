PROPERTY='C03'
NEEDS='a polygon file that is no GeoJSON although its name says so'
BREAKS='exit status 0 without an output'
EDITS=[('gtfstidy.go','''			fc1, err := geojson.UnmarshalFeatureCollection(json)

			if err != nil {
				fmt.Fprintf(os.Stderr, "\\nCould not parse polygon filter file: ")
				fmt.Fprintf(os.Stderr, err.Error()+".\\n")
				os.Exit(1)
			}
''','''			fc1, err := geojson.UnmarshalFeatureCollection(json)

			if err != nil {
				fmt.Fprintf(os.Stderr, "\\nCould not parse polygon filter file: ")
				fmt.Fprintf(os.Stderr, err.Error()+".\\n")
				return
			}
''')]
DEMO='''
base
echo 'no json' > "$T/p.geojson"
run --polygon-file "$T/p.geojson" && fail "exit status 0"
exit 0
'''
