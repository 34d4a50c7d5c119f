#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (keeps the two in step)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, observe, note=None, na=None, state=None,
         technique='deterministic simulation, seeded fault injection', level='exploration', hook=None):
    assert len(title) <= 80, title
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': quant},
         'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism], 'observe_at': observe}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append((d, note, na, technique, level))


exec(open(os.path.join(V, 'tools', 'props_table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, *_ in P:
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh',
     'checks': [{'property': d['id'], 'quick_cmd': './check %s --tier quick' % d['id'],
                 'thorough_cmd': './check %s --tier thorough' % d['id'], 'evidence_file': 'evidence/%s.json' % d['id'],
                 'technique': tech, 'level': level, 'level_note': note}
                for d, note, na, tech, level in P if not na],
     'not_applicable': [{'property': d['id'], 'reason': na} for d, note, na, tech, level in P if na],
     'notes': 'No hooks in /repo: the seams are the injected solver, residual and callback arguments, the linear-solve '
              'methods, the C library file calls (LD_PRELOAD shim built in /verif) and the interpreter line events.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
