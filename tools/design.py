#!/usr/bin/python3
"""Regenerates DESIGN.md."""
import importlib
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NA     # noqa: E402

seeds = json.load(open(HERE + '/tools/seeds/results.json'))
out = [open(HERE + '/tools/design_head.md').read().rstrip(), '',
       '## 3. The properties and how each is decided', '']
for p in sorted(PROPS, key=lambda p: p['id']):
    i = p['id']
    m = importlib.import_module('checks.' + i.lower())
    doc = re.sub(r'\s+', ' ', (m.__doc__ or '')).strip()
    ev = {}
    try:
        ev = json.load(open(HERE + '/evidence/%s.json' % i))['coverage']
    except Exception:
        pass
    out += ['### %s %s' % (i, p['title']), '', p['statement'], '']
    out += ['* Holds ' + p['text'].strip() + '.']
    out += ['* Decided by: ' + p['technique'] + '.']
    out += ['* Obligation: ' + re.sub(r'\s+', ' ', m.RULE)]
    if doc and doc not in m.RULE:
        out += ['* Check: ' + doc]
    out += ['* Bounds: ' + p['note']]
    out += ['* Why tests cannot settle it: ' + p['why']]
    out += ['* Source: ' + ', '.join('`%s`' % f for f in p['files'])]
    if ev:
        ins = ev.get('instances', [])
        out += ['* On the current tree: %d scenarios over %d functions, %d '
                'partitions, %d obligations, %d undecided, %d s of analysis.'
                % (len(ins), ev.get('functions_analysed', 0),
                   sum(x['paths'] for x in ins),
                   sum(x['obligations'] for x in ins),
                   sum(x['n_undecided'] for x in ins),
                   round(sum(x['wall'] for x in ins)))]
    got = [k for k in sorted(seeds) if seeds[k]['property'] == i]
    if got:
        out += ['* Planted bugs: ' + ', '.join(
            k + ('' if seeds[k]['caught'] else ' (missed)') for k in got)]
    out += ['']
out += ['## 4. Not applicable', '']
for p in sorted(NA, key=lambda p: p['id']):
    out += ['* **%s %s** %s  Reason: %s' % (
        p['id'], p['title'], p['statement'], p['reason'])]
if not NA:
    out += ['None so far.']
out += ['', '## 5. Defects found and repaired', '',
        'Each was reported by a check on the unchanged tree, confirmed against '
        'the real code, and repaired with a `fix:` commit in /repo; the check '
        'reports it again if it returns.  No defect is left as a known '
        'finding unless listed as `finding:` below.', '']
for x in open(HERE + '/known_findings.txt'):
    x = x.strip()
    if x.startswith('fixed:'):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', x)
        out += ['* %s `%s` %s' % m.groups()]
    elif x.startswith('finding:'):
        out += ['* ' + x]
out += ['', open(HERE + '/tools/design_tail.md').read().rstrip(), '',
        '## 9. Planted bugs and what catches them', '',
        '%d planted bugs, %d caught by the check of their property. Each is '
        'under `seeded/<id>/` with its patch and demonstration.' % (
            len(seeds), sum(x['caught'] for x in seeds.values())), '',
        '| bug | property | breaks | needs | caught by |',
        '|---|---|---|---|---|']
for k in sorted(seeds):
    x = seeds[k]
    m = re.match(r'\[([^\]]*)\]', x['by'] or '')
    out += ['| %s | %s | %s | %s | %s |' % (
        k, x['property'], x['breaks'].replace('|', '/'),
        x['needs'].replace('|', '/'),
        (m.group(1) if m else 'yes').replace('|', '/') if x['caught']
        else '**missed**')]
open(HERE + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
