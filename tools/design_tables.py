import json,glob,re
s=open('/verif/DESIGN.md').read()
rows=['| bug | property (check that catches it) | needs |','|---|---|---|']
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(f)); rows.append('| %s | %s | %s |'%(f.split('/')[-2],d['property'],d['needs'][:160].replace('\n',' ').replace('|','/')))
a=s.index('<!--seeds-->') if '<!--seeds-->' in s else None
def put(s,tag,body):
    b,e='<!--%s-->'%tag,'<!--/%s-->'%tag
    if b in s: return s[:s.index(b)]+b+'\n'+body+'\n'+s[s.index(e):]
    return s.replace(tag.upper()+'TABLE' if tag=='seed' else 'FIXES', b+'\n'+body+'\n'+e)
s=put(s,'seed','\n'.join(rows))
fx=[ '* '+l.split('property=')[1].strip() for l in open('/verif/known_findings.txt') if l.startswith('fixed:')]
s=put(s,'fixes','\n'.join(fx))
open('/verif/DESIGN.md','w').write(s)
