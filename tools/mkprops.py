#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.proptable import TABLE
from props import PROPS


def main():
    out, checks, na = [], [], []
    for p in TABLE:
        out.append(dict(id=p['id'], title=p['title'], statement=p['statement'],
                        quantifier=dict(over=p.get('over', ['inputs']), text=p['quant']),
                        why_tests_cant=p['why'],
                        anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])))
        assert len(p['title']) <= 80, p['id']
        if p['id'] in PROPS:
            c = PROPS[p['id']]
            checks.append(dict(property=p['id'], quick_cmd='./check.py %s --tier quick' % p['id'],
                               thorough_cmd='./check.py %s --tier thorough' % p['id'],
                               evidence_file='evidence/%s.json' % p['id'],
                               technique=c.get('technique', 'contract-based deductive verification: VCs generated from clang LLVM IR of the real functions, discharged by z3/cvc5/Groebner; counterexamples replayed natively'),
                               level=c.get('level', 'proof'), level_note=p['note']))
        else:
            na.append(dict(property=p['id'], reason=p['na']))
    with open(HERE + '/properties.jsonl', 'w') as f:
        for o in out:
            f.write(json.dumps(o) + '\n')
    man = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='No hooks in /repo are needed: private members are reached with -fno-access-control. Genuine defects were repaired by fix: commits, see known_findings.txt.')
    with open(HERE + '/MANIFEST.json', 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for o in out:
        jsonschema.validate(o, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print(len(out), 'properties,', len(checks), 'claimed')


main()
