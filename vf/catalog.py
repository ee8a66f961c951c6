#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the catalogue below (run after editing; the outputs are committed)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAT = []


def prop(id, title, statement, over, text, tests, files, mech, state=(), observe=(), na=None, note=''):
    CAT.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, text=' '.join(text.split()),
                    tests=' '.join(tests.split()), files=files, mech=mech, state=state, observe=observe, na=na,
                    note=' '.join(note.split())))


exec(open(os.path.join(V, 'vf', 'catalog_entries.py')).read())

TECH = ('contract-based deductive verification: verification conditions generated from the LLVM IR of the real functions, '
        'discharged by z3/cvc5; same contracts run natively as labelled bounded stand-in')
LEVEL_NOTE = ('Contracts whose obligations are all discharged hold for all inputs and iterations, modulo the trusted base in '
              'the evidence (clang front end, own VC generator, trusted library contracts, real arithmetic for doubles). '
              'Contracts listed under contracts_not_fully_proved are bounded only. ')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for c in CAT:
            assert len(c['title']) <= 80, c['title']
            e = {'id': c['id'], 'title': c['title'], 'statement': c['statement'],
                 'quantifier': {'over': c['over'], 'text': c['text']}, 'why_tests_cant': c['tests'],
                 'anchors': {'files': c['files'],
                             'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in c['state']],
                             'mechanism': [dict(zip(('name', 'where'), m)) for m in c['mech']],
                             'observe_at': list(c['observe']), 'hook_needed': False}}
            f.write(json.dumps(e) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3-vt vf/setup.py', 'checks': [], 'not_applicable': [],
         'notes': 'see DESIGN.md; no hooks in /repo are needed'}
    for c in CAT:
        if c['na']:
            m['not_applicable'].append({'property': c['id'], 'reason': c['na']})
        else:
            m['checks'].append({'property': c['id'], 'quick_cmd': f'python3-vt vf/check.py {c["id"]} quick',
                                'thorough_cmd': f'python3-vt vf/check.py {c["id"]} thorough', 'technique': TECH,
                                'level': 'proof', 'level_note': LEVEL_NOTE + c['note']})
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
