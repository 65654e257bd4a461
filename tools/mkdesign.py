"""writes DESIGN.md from DESIGN.tmpl, the planted bugs and the known findings"""
import glob,json
V='/verif'
t=open(V+'/DESIGN.tmpl').read()
fixed=sum(l.startswith('fixed:') for l in open(V+'/known/KNOWN_FINDINGS'))
rows=[]
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append('| %s | %s | %s | %s |'%(f.split('/')[-2],m['property'],m['what_it_breaks'],m['needs']))
t=t.replace('NFIXED',str(fixed)).replace('NSEED',str(len(rows))).replace('SEEDTAB','| change | reported by | breaks | needs |\n|---|---|---|---|\n'+'\n'.join(rows))
open(V+'/DESIGN.md','w').write(t)
