#!/usr/bin/env python3
"""Notes in caught.json which harnesses reported a planted bug: mkcaught.py OUTDIR (files out.<id>)."""
import json, os, re, sys
V = os.path.dirname(os.path.abspath(__file__))
f = os.path.join(V, 'caught.json')
c = json.load(open(f)) if os.path.exists(f) else {}
for s in sorted(os.listdir(os.path.join(os.path.dirname(V), 'seeded'))):
    o = os.path.join(sys.argv[1], 'out.' + s)
    if os.path.exists(o):
        hs = set(re.findall(r'^VIOLATION property=(\w+) replay=\S*/\w+?-(ZZ\w+?)-', open(o).read(), re.M))
        if hs:
            c[s] = ', '.join('%s %s' % h for h in sorted(hs))
json.dump(c, open(f, 'w'), indent=1, sort_keys=True)
