#!/usr/bin/env python
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing; the outputs are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None, technique=None, note=None,
         na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, hook=hook, technique=technique, note=note, na=na))


NOPAR = 'No test in the repository starts a parallel domain in the test run; the two parallel test scripts have no ' \
        'test functions and run one workload under whatever schedule the OS picks.'
DST = 'deterministic simulation: '

exec(open(os.path.join(HERE, 'tools', 'meta_table.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in p['state']],
                            'mechanism': [dict(zip(('name', 'where'), m)) for m in p['mech']],
                            'observe_at': list(p['observe']), 'hook_needed': p['hook']}}) + '\n')
    man = {'version': 1, 'setup_cmd': './setup.sh',
           'checks': [{'property': p['id'], 'quick_cmd': f'./check.sh {p["id"]}',
                       'thorough_cmd': f'./check.sh {p["id"]} --tier thorough',
                       'technique': DST + p['technique'], 'level': 'exploration', 'level_note': p['note']}
                      for p in P if p['na'] is None],
           'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na'] is not None],
           'notes': NOTES}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(P), 'properties', len(man['checks']), 'checks', len(man['not_applicable']), 'not applicable')


NOTES = 'No hooks in /repo: every seam is an existing module global, constructor argument or overridable method ' \
        'replaced at run time by /verif. Replay: ./check.sh <id> --replay <file>.'

if __name__ == '__main__':
    main()
