import json,glob,os,re
# rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=[]
for p in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(p)); rows.append('| %s | %s | %s |'%(os.path.basename(os.path.dirname(p)),m.get('caught_by',m['property']),m['what_it_breaks'].replace('|','/')))
ben=sorted(os.path.basename(p)[:-5] for p in glob.glob(V+'/benign/*.diff'))
t='<!-- seeds -->\n| planted bug | caught by | what it breaks |\n|---|---|---|\n'+'\n'.join(rows)+'\n\nEdits that keep the behaviour (all checks quiet on all of them): '+', '.join(ben)+'.\n<!-- /seeds -->'
d=open(V+'/DESIGN.md').read()
d=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda _:t,d,flags=re.S)
open(V+'/DESIGN.md','w').write(d)
