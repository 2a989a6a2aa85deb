import json,glob,os
head = open('/verif/tools/design_head.md').read()
rows=[]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append((f.split('/')[-2], m))
seen=json.load(open('/verif/tools/caught.json')) if os.path.exists('/verif/tools/caught.json') else {}
t='\n## Planted bugs and the checks that catch them\n\nGenerated by `tools/mkdesign.py`. "caught by" lists checks that were run against the bug and reported it\n(the check of its own property always is run; others only where listed).\n\n| seed | property | needs | caught by |\n|---|---|---|---|\n'
for n,m in rows:
    t+=f"| {n} | {m['property']} | {m['needs']} | {', '.join(seen.get(n,[])) or 'missed'} |\n"
open('/verif/DESIGN.md','w').write(head+t)
