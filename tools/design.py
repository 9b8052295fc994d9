"""Appends the generated part of DESIGN.md (run by hand after props.py)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.props import P  # noqa: E402
path = os.path.join(HERE, 'DESIGN.md')
head = open(path).read().split('\n## Properties\n')[0]
rest = ''
if os.path.exists(os.path.join(HERE, 'tools', 'design_tail.md')):
    rest = open(os.path.join(HERE, 'tools', 'design_tail.md')).read()
if rest:
    import glob
    rows = ['| change | property | needs |', '|---|---|---|']
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*',
                                           'meta.json'))):
        m = json.load(open(f))
        rows.append(f"| {os.path.basename(os.path.dirname(f))} "
                    f"| {m['property']} | {m['needs']} |")
    rest = rest.replace('@@TABLE@@', '\n'.join(rows))
man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
claimed = {c['property']: c for c in man['checks']}
na = {n['property']: n['reason'] for n in man['not_applicable']}
out = [head, '\n## Properties\n']
for p in P:
    i = p['id']
    if i not in claimed and i not in na:
        continue
    out.append(f"\n### {i} {p['title']}\n\n")
    if i in na:
        out.append(f'Not claimed: {na[i]}\n')
        continue
    out.append(f"* Quantified over: {p['quantifier']['text']}.\n"
               f"* Method: {claimed[i]['technique']}.\n"
               f"* Bound: {p['_bound']}.\n"
               f"* Why tests cannot settle it: {p['why_tests_cant']}\n")
    if p['_assume']:
        out.append('* Assumptions: ' + '; '.join(p['_assume']) + '.\n')
out.append('\n' + rest)
open(path, 'w').write(''.join(out))
