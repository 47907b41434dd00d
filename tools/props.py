#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.

Run by hand (python3 tools/props.py) after editing; no check depends on it.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, S, T = 'qopt/matrix.py', 'qopt/solver_algorithms.py', \
    'qopt/transfer_function.py'
CF, A, N = 'qopt/cost_functions.py', 'qopt/amplitude_functions.py', \
    'qopt/noise.py'
SI, O, D = 'qopt/simulator.py', 'qopt/optimize.py', 'qopt/data_container.py'
OD, PA, AN = 'qopt/optimization_data.py', 'qopt/parallel.py', \
    'qopt/analyser.py'
ES, U = 'qopt/energy_spectrum.py', 'qopt/util.py'

P = []


def prop(pid, title, statement, over, text, why, files, mech, level_note,
         state=(), observe=(), technique=None, na=None):
    P.append(dict(
        rec={'id': pid, 'title': title, 'statement': statement,
             'quantifier': {'over': list(over), 'text': text},
             'why_tests_cant': why,
             'anchors': {'files': list(files),
                         'state': [dict(zip(('name', 'meaning', 'where'), x))
                                   for x in state],
                         'mechanism': [dict(zip(('name', 'where'), x))
                                       for x in mech],
                         'observe_at': list(observe),
                         'hook_needed': None}},
        level_note=level_note, technique=technique, na=na))


exec(open(os.path.join(HERE, 'tools', 'props_table.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['rec']['title']) <= 80, p['rec']['title']
            f.write(json.dumps(p['rec']) + '\n')
    checks, na = [], []
    for p in P:
        pid = p['rec']['id']
        have = os.path.exists(os.path.join(HERE, 'checks',
                                           pid.lower() + '.py'))
        if p['na'] or not have:
            na.append({'property': pid, 'reason': p['na'] or
                       'check under construction'})
            continue
        checks.append({
            'property': pid,
            'quick_cmd': 'bash check.sh %s' % pid,
            'thorough_cmd': 'bash check.sh %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': p['technique'] or
            'property-based testing (Hypothesis) against a reference model',
            'level': 'exploration',
            'level_note': p['level_note']})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'bash setup.sh',
                   'checks': checks, 'not_applicable': na,
                   'notes': 'qopt is pure Python and imported from /repo; '
                   'nothing is compiled. No hooks in /repo.'}, f, indent=1)
        f.write('\n')


main()
