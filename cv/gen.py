"""write properties.jsonl and MANIFEST.json from props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from cv import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = getattr(props, 'NOT_APPLICABLE', {})
out = []; checks = []; na = []
for pid, p in sorted(list(props.PROPS.items()) + list(NA.items())):
    files = sorted(set(w.split(':')[0] for _, w in p['mech']))
    out.append(dict(id=pid, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['q']), why_tests_cant=p['why'],
                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in p['mech']])))
    assert len(p['title']) <= 80, pid
    if pid in NA: na.append(dict(property=pid, reason=p['reason'])); continue
    cmd = 'python3-vt cv/run.py check %s --tier ' % pid
    checks.append(dict(property=pid, quick_cmd=cmd + 'quick', thorough_cmd=cmd + 'thorough',
        technique='contract-based deductive verification of the real functions (symbolic execution of the clang AST against contracts; GF(p) identity testing + z3)',
        level=p.get('level', 'proof'), level_note=p.get('note', 'All obligations discharged for all inputs over exact reals; ') + '; '.join(p.get('assumptions', [])) + ' See evidence assumptions/trusted_base.'))
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(o, ensure_ascii=False) + '\n' for o in out))
json.dump(dict(version=1, setup_cmd='python3-vt cv/run.py setup', checks=checks, not_applicable=na,
    notes='No hooks in /repo. Contracts: /verif/contracts; verifier: /verif/cv; see DESIGN.md.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(out), 'properties', len(checks), 'checks')
