import re,glob,json,os
src=''.join(open(f).read() for f in sorted(glob.glob('/verif/harness/p_*.go')))
rules={}
for m in re.finditer(r'ID: "(C\d\d)", Quick: (\d+), Thorough: (\d+)(.*?)Rule:\s*"((?:[^"\\]|\\.)*)"',src,re.S):
    rules[m[1]]=(int(m[2]),int(m[3]),m[5])
props={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
assert len(rules)==len(props),set(props)-set(rules)
exec(open('/verif/tools/technique.py').read())
out=open('/verif/tools/design_head.md').read().replace('{NFIX}',str(sum(l.startswith('fixed:') for l in open('/verif/known_findings.txt'))))
out+='\n## The properties\n\nCounts are cases per quick / thorough run; a case runs the tool one to eight times.\n\n'
det=json.load(open('/verif/tools/design_detail.json'))
for i in sorted(props):
    q,t,r=rules[i]
    out+=f"### {i} {props[i]['title']}\n\n* Generated ({q} / {t} cases): {r}.\n* Decided by: {TECH[i][0]}.\n"
    if TECH[i][1]: out+=f"* Limits: {TECH[i][1]}\n"
    if det.get(i): out+=f"* Notes: {det[i]}\n"
    out+='\n'
out+=open('/verif/tools/design_tail.md').read()
# table of planted bugs
out+='\n## Planted bugs and the checks that catch them\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n'
c=json.load(open('/verif/tools/caught.json')) if os.path.exists('/verif/tools/caught.json') else {}
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); n=d.split('/')[-2]
    out+=f"| {n} | {m['property']} | {m['needs']} | {c.get(n,'?')} |\n"
open('/verif/DESIGN.md','w').write(out)
