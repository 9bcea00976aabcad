"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import props  # noqa

TECH = ('bounded symbolic execution of the real source (AST-instrumented '
        'Python / transpiled Cython) with z3')
checks, na = [], []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as out:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['title']
        rec = dict(id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['quant']),
                why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[
                    dict(name=a, where=b) for a, b in p['mech']],
                    observe_at=p.get('observe', [])))
        out.write(json.dumps(rec) + '\n')
        if 'na' in p:
            na.append(dict(property=p['id'], reason=p['na']))
            continue
        checks.append(dict(property=p['id'],
                quick_cmd='./run_check.sh %s quick' % p['id'],
                thorough_cmd='./run_check.sh %s thorough' % p['id'],
                evidence_file='evidence/%s.json' % p['id'],
                technique=p.get('technique', TECH), level='model_checking',
                level_note=p['note']))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks,
        not_applicable=na, notes='Solver-based checking: see DESIGN.md.'),
        open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
