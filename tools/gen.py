#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, technique=None, level='model_checking', note='', claimed=True, reason='', state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, level=level, note=note, claimed=claimed, reason=reason, state=state))


LOX = 'TLA+ semantics of the language (spec/Lox.tla) run by TLC on generated and enumerated programs; clox has to behave the same'
LOXNOTE = 'Every compared program is one behaviour of the specification that TLC computed (checking its invariants in every state) and that clox replayed; exhaustive for the enumerated families, sampled by seed for generated programs.'
OBS = ['standard output', 'exit status', 'class and message of uncaught errors']
exec(open(os.path.join(HERE, 'tools', 'properties.py')).read())


def main():
    P.sort(key=lambda p: p['id'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']},
                 'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                                                         'observe_at': p['observe'], 'hook_needed': None}}
            if p['state']:
                d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            f.write(json.dumps(d) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                     'technique': p['technique'], 'level': p['level'], 'level_note': p['note']} for p in P if p['claimed']],
         'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in P if not p['claimed']],
         'notes': 'Specifications are in spec/, the machinery in lib/; see DESIGN.md. No hooks in /repo are needed.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
