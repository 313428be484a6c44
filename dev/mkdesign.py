import json,glob,os,re
na=json.load(open('/verif/dev/na.json'))
t=open('/verif/dev/design_head.md').read()+"\n"+open('/verif/dev/design_props.md').read()+"\n"+open('/verif/dev/design_tail.md').read()
t=t.replace('@@NA@@','\n'.join(f'* **{k}**: {v}.' for k,v in na.items()))
last={}
f='/verif/dev/try-results.txt'
if os.path.exists(f):
    for l in open(f):
        p=l.split()
        if len(p)>=3 and p[1].startswith('C') and p[2].startswith('exit='):
            last[p[0]]=(p[1],p[2],'no-failing-input-found' in l)
rows=['| seed | property | what it needs | result of the quick check |','|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*')):
    i=os.path.basename(d); m=json.load(open(d+'/meta.json'))
    r=last.get(i)
    s='not run' if not r else ('caught, failing input replayed' if r[1]=='exit=1' and not r[2] else 'caught, no failing input' if r[1]=='exit=1' else 'missed')
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {s} |")
t=t.replace('@@SEEDS@@','\n'.join(rows))
open('/verif/DESIGN.md','w').write(t)
