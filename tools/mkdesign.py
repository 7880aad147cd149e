#!/usr/bin/env python3
"""writes the generated part of DESIGN.md (after the marker line) from vc/props.py, properties.jsonl, known_findings.txt and seeded/*/meta.json"""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, 'vc'))
import props
P = {}
for l in open(os.path.join(V, 'properties.jsonl')): d = json.loads(l); P[d['id']] = d
MARK = '<!-- generated by tools/mkdesign.py below this line -->\n'
f = os.path.join(V, 'DESIGN.md'); head = open(f).read().split(MARK)[0]; out = [MARK, '\n## Claimed properties\n\n']
for i in sorted(props.PROPS):
    p = props.PROPS[i]
    out.append('### %s %s (level: %s)\n\n' % (i, P[i]['title'], p.get('level', 'proof')))
    out.append('- Proved, function by function, for all inputs: %s (and every callee contract they use).\n' % ', '.join('`%s`' % x for x in p['fns']))
    if p.get('assume'): out.append('- Assumed: ' + '; '.join(p['assume']) + '.\n')
    if p.get('bounded'): out.append('- Bounded stand-in only (native driver `native/%s.c`, seeded inputs, never counted as proved): %s.\n' % (p['driver'], '; '.join(p['bounded'])))
    out.append('- Why beyond tests: %s\n\n' % P[i]['why_tests_cant'])
out.append('## Not claimed\n\n')
for i in sorted(P):
    if i not in props.PROPS: out.append('- %s %s. %s\n' % (i, P[i]['title'], props.NA.get(i, 'No contract decides this yet.')))
out.append('\n## Defects found in the repository\n\nRepaired (`fixed`) or recorded (`finding`), from known_findings.txt:\n\n')
for l in open(os.path.join(V, 'known_findings.txt')):
    if not l.startswith('#') and l.strip(): out.append('- ' + l.strip() + '\n')
out.append('\n## Planted bugs and the checks that catch them\n\nEach was applied to /repo and its property\'s check run. `native` = a failing input was found on the real library; `obligation` = a named obligation failed.\n\n')
C = json.load(open(os.path.join(V, 'tools', 'catches.json')))
for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m)); out.append('- `%s` (%s): %s. Caught by: %s\n' % (n, d['property'], d['what_it_breaks'].rstrip('.'), C.get(n, 'its check (vcheck)')))
open(f, 'w').write(head + ''.join(out))
