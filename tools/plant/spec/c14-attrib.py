PROPERTY='C14'
NEEDS='an attribution of an agency that is merged into another one'
BREAKS='the attribution is lost'
EDITS=[('processors/agencyduplicateremover.go','''			ref.Attributions = append(ref.Attributions, attr)
''','''			if len(ref.Attributions) > 0 {
				ref.Attributions = append(ref.Attributions, attr)
			}
''')]
DEMO='''
base
put agency <<X
agency_id,agency_name,agency_url,agency_timezone
A,Agency,http://a.example,Europe/Berlin
AA,Agency,http://a.example,Europe/Berlin
X
put attributions <<X
attribution_id,agency_id,organization_name,is_producer
T,AA,Org,1
X
run -A || fail "run failed"
has attributions 'Org' || fail "the attribution is lost"
'''
