#!/usr/bin/env python3
"""assembles DESIGN.md"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'analyzer'))
import rules
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
na = {x['property']: x['reason'] for x in man['not_applicable']}
tech = {c['property']: c['technique'] for c in man['checks']}
out = [open(V + '/tools/design_head.md').read()]
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in rules.DOC:
        out.append('*Method:* %s.' % tech.get(i, ''))
        out.append('*Decided:* ' + rules.DOC[i])
        if rules.ASSUME[i]:
            out.append('*Trusted:* ' + '; '.join(rules.ASSUME[i]) + '.')
        out.append('*Bounds:* none on values, lengths, iterations or history (widened loops); serde shapes up to the stated ones.' if i not in ('C06', 'C19') else '*Bounds:* none.')
    else:
        out.append('*Not applicable:* ' + na.get(i, '?') + '.')
    out.append('')
out.append('## 4. Planted bugs and the checks that catch them\n')
out.append('Each was confirmed to compile, pass the 11 stable tests and fail its demonstration. "caught by" is the check run on the patched tree.\n')
out.append('| bug | what it breaks | needs | caught by |\n|---|---|---|---|')
caught = json.load(open(V + '/tools/caught.json'))
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    out.append('| %s | %s | %s | %s |' % (d, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), caught.get(d, '?')))
out.append(open(V + '/tools/design_tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
