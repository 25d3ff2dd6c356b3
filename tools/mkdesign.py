#!/usr/bin/env python3
"""Fills the generated sections of DESIGN.md (properties, planted bugs) from props.py, notes.py and seeded/*/meta.json."""
import os, sys, glob, json, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, 'tools'))
from props import P, NA
def props():
    o = []
    for p in P:
        fs = glob.glob(os.path.join(V, 'contracts', p['id'] + '_*.cpp')); cs = []
        for f in fs: cs += re.findall(r'extern "C" void contract_(\w+)\(\)', open(f).read())
        o.append('### %s %s\n\n%s\n\n*Over* %s. *Contracts*: %s. *Oracle*: the postconditions in `%s`. *Bounds*: none unless stated. %s Tests cannot settle it: %s\n' % (
            p['id'], p['title'], p['statement'], p['q'], ', '.join(cs), ', '.join('contracts/' + os.path.basename(f) for f in fs), p['note'], p['why']))
    for n in NA: o.append('### %s not applicable\n\n%s\n' % (n['property'], n['reason']))
    return '\n'.join(o)
def seeds():
    o = ['| bug | property | what it breaks | needs | check |', '|---|---|---|---|---|']
    try: res = json.load(open(os.path.join(V, 'tools', 'seed_results.json')))
    except Exception: res = {}
    for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
        o.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], res.get(i, 'not run')))
    return '\n'.join(o)
p = os.path.join(V, 'DESIGN.md'); t = open(p).read()
def fill(t, mark, body):
    b, e = '<!-- %s -->' % mark, '<!-- end %s -->' % mark
    if b not in t: t = re.sub(r'(?m)^%s$' % mark, lambda m: b + '\n' + e, t)
    i, j = t.index(b), t.index(e)
    return t[:i] + b + '\n' + body + '\n' + t[j:]
t = fill(t, 'PROPS', props()); t = fill(t, 'SEEDS', seeds())
open(p, 'w').write(t)
