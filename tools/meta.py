#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below (run by hand after editing it)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def prop(p):
    return {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p.get('observe', []), 'hook_needed': None}}


def main():
    ids = [p['id'] for p in PROPS + NA]
    assert len(ids) == len(set(ids))
    with open(os.path.join(V, 'properties.jsonl'), 'w') as h:
        for p in PROPS + NA:
            assert len(p['title']) <= 80, p['title']
            h.write(json.dumps(prop(p), ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
         'notes': 'No hooks in /repo: every check copies /repo\'s working tree to a scratch directory, regenerates its derived sources there, compiles them to LLVM IR (or parses the sources) and analyses that; nothing of jbofihe is executed except its own code generators (bison, flex, dfasyn, perl filters).'}
    for p in PROPS:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 checks/%s.py' % p['id'], 'thorough_cmd': 'python3 checks/%s.py --thorough' % p['id'], 'technique': p['technique'], 'level': p.get('level', 'other'), 'level_note': p['note']})
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
    open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')


main()
