#!/usr/bin/env python3
"""Runs the check of its own property against every planted bug (development aid) and records tools/caught.json."""
import json,glob,os,subprocess,sys,concurrent.futures
out='/verif/tools/caught.json'
seen=json.load(open(out)) if os.path.exists(out) else {}
want=sys.argv[1:]
def one(f):
    n=f.split('/')[-2]; m=json.load(open(f))
    if want and n not in want: return n,None
    r=subprocess.run(['/verif/tools/try.sh',f'/verif/seeded/{n}/patch.diff',m['property']],env=dict(os.environ,NOTEST='1'),capture_output=True,text=True).stdout
    return n,[l.split()[1] for l in r.splitlines() if ' rc=1 VIOLATION' in l]
with concurrent.futures.ThreadPoolExecutor(4) as ex:
    for n,c in ex.map(one,sorted(glob.glob('/verif/seeded/*/meta.json'))):
        if c is not None:
            seen[n]=sorted(set(seen.get(n,[])+c) if c else c)
            if not c: print('missed',n,flush=True)
        json.dump(seen,open(out,'w'),indent=0,sort_keys=True)
