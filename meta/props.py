#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run `python3 meta/props.py` after editing."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, tests, files, mech, technique=None, level='other', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech, technique=technique, level=level, note=note, na=na))


TRUST = ' Trusted: the clang AST/CFG extraction, the transfer functions for GMP and the standard library, and templates being analysed in the instantiations of driver/drv_main.cc and the library sources.'

exec(open(os.path.join(HERE, 'meta', 'list.py'), encoding='utf-8').read())

with open(HERE + '/properties.jsonl', 'w', encoding='utf-8') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['tests'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}, ensure_ascii=False) + '\n')
man = {'version': 1, 'setup_cmd': 'bash tools/build.sh',
       'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': p['level'], 'level_note': p['note'] + TRUST} for p in P if not p['na']],
       'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']],
       'notes': 'Static analysis only: every check re-extracts the AST/CFG of /repo\'s current working tree with tools/extract (libclang, built by setup_cmd or on demand) and decides the property on it; nothing of CLPoly is executed.'}
with open(HERE + '/MANIFEST.json', 'w', encoding='utf-8') as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(P), 'properties', len(man['checks']), 'checks')
