#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.in.md, the evidence of the last runs, known_findings.txt and seeded/."""
import json, os, glob
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props = {}
for l in open('properties.jsonl'):
    d = json.loads(l); props[d['id']] = d
missed = set(open('seeds_missed.txt').read().split())
out, pend = [], None
def flush():
    global pend
    if not pend: return
    d = json.load(open(f'evidence/{pend}.json'))
    for s in d['coverage']['scenarios']:
        n = f"{s['inputs_evaluated']} i" if s['inputs_evaluated'] else f"{s['complete_executions']} x"
        out.append(f"* `{s['scenario'].split('/')[1]}`: {s['explores']} (b={s['deviation_bound']}, {n})")
    out.append('')
    pend = None
for l in open('DESIGN.in.md').read().split('\n'):
    if l.startswith('@@ ') or l.startswith('## '):
        if pend and out[-1] == '': out.pop()
        flush()
    if l.startswith('@@ C'):
        pend = l[3:].strip()
        out.append(f"### {pend}: {props[pend]['title']}\n"); continue
    if l == '@@ FIXED':
        for f in open('known_findings.txt'):
            if f.startswith('fixed:'): out.append('* ' + f[6:].strip().replace('property=', ''))
        continue
    if l == '@@ SEEDS':
        out.append('| planted bug | caught by | what it breaks |\n|---|---|---|')
        for m in sorted(glob.glob('seeded/*/meta.json')):
            d = json.load(open(m)); i = m.split('/')[1]
            out.append(f"| {i}{'*' if i in missed else ''} | {d['property']} | {d['what_it_breaks'].strip()} |")
        continue
    out.append(l)
flush()
open('DESIGN.md', 'w').write('\n'.join(out))
