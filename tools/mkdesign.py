#!/usr/bin/env python3
"""Puts DESIGN.md together: design.md, the harnesses of each property, the planted bugs."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = []
for d, _, fs in sorted(os.walk(os.path.join(V, 'harness'))):
    for f in sorted(fs):
        if not f.startswith('zz_verif_'):
            continue
        src = open(os.path.join(d, f)).read()
        for m in re.finditer(r'((?:^//[^\n]*\n)+)^func (ZZ\w+)\(\)', src, re.M):
            lines = [l[2:].rstrip() for l in m.group(1).split('\n') if l]
            doc = ' '.join(l.strip() for l in lines if not l.startswith('zz:')).strip()
            doc = re.sub(r'\s+', ' ', re.sub(r'^%s:?\s*' % m.group(2), '', doc))
            get = lambda k: [l[len('zz:' + k):].strip() for l in lines if l.startswith('zz:' + k)]
            props = set(x.strip() for p in get('prop') for x in p.split(','))
            if props:
                H.append(dict(name=m.group(2), file=os.path.relpath(os.path.join(d, f), V), doc=doc, props=props,
                              bound=get('bound'), need=get('need'), thorough=bool(get('thorough'))))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
caught = json.load(open(os.path.join(V, 'tools', 'caught.json')))
out = [open(os.path.join(V, 'tools', 'design.md')).read().rstrip(), '', '## 6. The properties and the harnesses that decide them', '',
       'A harness serves every property it has assertions for; it is described in full at the first one.', '']
seen = {}
for p in props:
    out += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '',
            '*Why tests cannot:* ' + p['why_tests_cant'], '']
    for h in H:
        if p['id'] not in h['props']:
            continue
        if h['name'] in seen:
            out.append('- `%s` (see %s)' % (h['name'], seen[h['name']]))
            continue
        seen[h['name']] = p['id']
        t = '- `%s` (%s)%s %s' % (h['name'], h['file'], ' [thorough only]' if h['thorough'] else '', h['doc'])
        if h['bound']:
            t += ' *Bounds:* ' + '; '.join(h['bound']) + '.'
        if h['need']:
            t += ' *Reaches:* ' + ' '.join(h['need']) + '.'
        out.append(t)
    out.append('')
out += ['## 7. Planted bugs', '',
        'Each is a change to the original code that compiles, passes the 130 tests, and has a',
        'demonstration (`demo.sh`). "Caught by" is the quick check of the property and the harness.', '',
        '| bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    out.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['needs'], m['what_it_breaks'], caught.get(s, 'not recorded')))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
print(len(H), 'harnesses')
