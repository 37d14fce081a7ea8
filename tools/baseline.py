#!/usr/bin/env python3
"""Records, from the unchanged tree, which contracts the verifier proves (contracts/expected.json)."""
import json,glob,os,subprocess,sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f=H+'/contracts/expected.json'
d=json.load(open(f)) if os.path.exists(f) else {}
for p in sys.argv[1:] or [os.path.basename(x)[:-3].upper() for x in sorted(glob.glob(H+'/contracts/c??.py'))]:
    subprocess.check_call(['python3-vt','-m','tcv.prove',p,'200','8','/tmp/o.json'],cwd=H)
    r=json.load(open('/tmp/o.json'))
    d[p]={x['name']:x['status'] for x in r}
    print(p,len(r),sum(x['status']=='proved' for x in r),[(x['name'],x['status'],x['why'][:100]) for x in r if x['status']!='proved'])
json.dump(d,open(f,'w'),indent=1,sort_keys=True)
