#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run to regenerate both)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique=None, level='other', note='', na=None, state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, level=level, note=note, na=na,
                      state=state, observe=observe))


exec(open(os.path.join(V, 'tools', 'catalog_entries.py')).read())


def main():
    ids = [p['id'] for p in PROPS]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in sorted(PROPS, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['id']
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
            if p['state']:
                d['anchors']['state'] = [dict(zip(('name', 'meaning', 'where'), s)) for s in p['state']]
            if p['observe']:
                d['anchors']['observe_at'] = p['observe']
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in sorted(PROPS, key=lambda p: p['id']):
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
            continue
        if not os.path.exists(os.path.join(V, 'props', p['id'].lower() + '.py')):
            print('no check yet for', p['id'])
            na.append({'property': p['id'], 'reason': 'no check built yet'})
            continue
        checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
                       'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    m = {'version': 1, 'setup_cmd': 'python3-vt -c "import mpmath, ast, sys; sys.path.insert(0, \'.\'); import sa.front, sa.fortran, sa.kern"',
         'checks': checks, 'not_applicable': na,
         'notes': 'Pure static analysis: every check parses /repo (Python ast, own Fortran front end), never imports, compiles or runs it. '
                  'Recorded findings: known_findings.txt.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
        s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for l in open(os.path.join(V, 'properties.jsonl')):
            jsonschema.validate(json.loads(l), s)
    except ImportError:
        pass


main()
