#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (from DESIGN.in.md): properties with their checks, planted bugs."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
notes = json.load(open(root + '/tools/notes.json'))
out = []
for p in props:
    i = p['id']
    out.append(f"### {i} {p['title']}\n")
    if not os.path.isdir(f'{root}/checks/{i}'):
        out.append('Not claimed: ' + notes.get('not_applicable', {}).get(i, 'no check built yet') + '\n')
        continue
    if notes.get('design', {}).get(i):
        out.append(notes['design'][i] + '\n')
    hs, bounds, assumes, stubs = [], [], [], []
    for f in sorted(glob.glob(f'{root}/checks/{i}/*.go')):
        src = open(f).read()
        for m in re.finditer(r'^//verif:(harness|bound|assume|stub) (.*)$', src, re.M):
            k, v = m.groups()
            if k == 'harness':
                n = v.split()[0]
                msgs = []
                body = src[m.end():]
                e = body.find('\n}\n')
                msgs = re.findall(r'vAssert\(.*?"([^"]*)"\)', body[:e])
                mode = re.search(r'mode=(\S+)', v)
                hs.append(f"* `{n[9:]}` ({mode.group(1) if mode else 'exact'}{', all interleavings' if 'conc=1' in v and 'preempt=0' not in v else ''}): " + '; '.join(dict.fromkeys(msgs)))
            elif k == 'bound': bounds.append(v)
            elif k == 'assume': assumes.append(v)
            else: stubs.append(v.split('=')[0].strip())
    out.append('\n'.join(hs))
    out.append('* Bounds: ' + '; '.join(bounds) + '.')
    if assumes: out.append('* Assumptions: ' + '; '.join(assumes) + '.')
    if stubs: out.append('* Stand-ins for: ' + ', '.join('`%s`' % s for s in dict.fromkeys(stubs)) + '.')
    out.append('')
seeds = ['| change | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    n = d.split('/')[-2]; m = json.load(open(d))
    seeds.append(f"| {n}: {m['what_it_breaks']} | {m['property']} | {m['needs']} | {notes.get('caught', {}).get(n, 'check ' + m['property'])} |")
s = open(root + '/DESIGN.in.md').read().replace('@@PROPERTIES@@', '\n'.join(out)).replace('@@SEEDED@@', '\n'.join(seeds))
open(root + '/DESIGN.md', 'w').write(s)
