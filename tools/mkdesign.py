#!/usr/bin/env python3
"""Rewrites the tables of DESIGN.md (between the markers) from properties.jsonl, lib/props.py, known_findings.json and seeded/."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import props
P = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
def table(head, rows):
    return '\n'.join(['| ' + ' | '.join(head) + ' |', '|' + '---|' * len(head)] + ['| ' + ' | '.join(str(x).replace('|', '\\|').replace('\n', ' ') for x in r) + ' |' for r in rows])
def models(ms): return ', '.join('%s (%s)' % (m[0], m[1].split('_')[-1][:-4]) for m in ms) or '-'
def t_props():
    return table(['Property', 'Title', 'Records of the library', 'Models, quick', 'more models, thorough'],
                 [(p['id'], p['title'], props.PROPS[p['id']].what, models(props.PROPS[p['id']]._m), models(props.PROPS[p['id']]._b)) for p in P if p['id'] in props.PROPS])
def t_fixes():
    fs = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
    return table(['Property', 'Commit', 'What failed'], [(f['property'], f.get('commit', '')[:7], re.sub(r'^fixed: property=\S+ \S+ ', '', f.get('text', ''))) for f in sorted(fs, key=lambda f: f['property'])])
def t_bugs():
    rows, d = [], os.path.join(V, 'seeded')
    for b in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, b, 'meta.json')))
        rows.append((b, m['property'], m['needs'], m['what_it_breaks']))
    return table(['Bug', 'Caught by', 'Needs', 'Breaks'], rows)
f = os.path.join(V, 'DESIGN.md')
s = open(f).read()
for name, t in (('properties', t_props), ('fixes', t_fixes), ('bugs', t_bugs)):
    s = re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (name, name), lambda m: m.group(1) + t() + "\n" + m.group(2), s, flags=re.S)
open(f, 'w').write(s)
