#!/usr/bin/env python3
"""Rewrites the generated sections of DESIGN.md: the sub-checks (from evidence/*.json of a quick run)
and the planted bugs (from seeded/*/meta.json). Run by hand."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def subs():
    out = []
    for f in sorted(glob.glob(here + '/evidence/C*.json')):
        d = json.load(open(f)); i = os.path.basename(f)[:-5]
        rules = dict(r.split(': ', 1) for r in d['coverage']['rule'].split(' | '))
        out.append(f'**{i}**\n')
        for name, r in sorted(rules.items()):
            p = d['coverage']['per_sub_check'].get(f'{i}/{name}')
            n = f" ({p['evaluations']} cases, {p['nontrivial']} non-trivial)" if p else ''
            out.append(f'* *{name}*{n}: {r}')
        out.append('')
    return '\n'.join(out)
def bugs():
    out = ['| bug | property | needs |', '|---|---|---|']
    for i in sorted(os.listdir(here + '/seeded')):
        m = json.load(open(f'{here}/seeded/{i}/meta.json'))
        out.append(f"| {i} | {m['property']} | {m['needs']} |")
    return '\n'.join(out) + '\n'
s = open(here + '/DESIGN.md').read()
for tag, f in (('subs', subs), ('bugs', bugs)):
    a, b = f'<!-- {tag} -->\n', f'<!-- /{tag} -->'
    assert a in s and b in s, tag
    s = s[:s.index(a) + len(a)] + f() + s[s.index(b):]
open(here + '/DESIGN.md', 'w').write(s)
