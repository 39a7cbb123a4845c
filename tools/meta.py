"""Generates properties.jsonl and MANIFEST.json (run by hand after editing; both outputs are committed)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'lib/mpslib/'
MFP, MPSP, HAMP, ENGP = L + 'mpsfunctions.py', L + 'mps.py', L + 'Hamiltonians.py', L + 'engines.py'
PROPS = []
NA = []
TECH_NET = 'abstract interpretation of the source: tensor-network value numbering against a hand-written specification network'


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    PROPS.append((d, technique, note))


def na(id, title, statement, over, text, why, files, mech, observe, reason):
    prop(id, title, statement, over, text, why, files, mech, observe, None, None)
    NA.append((id, reason))


exec(open(os.path.join(V, 'tools', 'props_text.py')).read())

claimed = [(d, t, n) for d, t, n in PROPS if t]
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, t, n in sorted(PROPS, key=lambda x: x[0]['id']):
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
m = dict(version=1, setup_cmd='python3 -c "import ast, sys; sys.exit(0)"',
         checks=[dict(property=d['id'], quick_cmd='python3 check.py %s' % d['id'], thorough_cmd='python3 check.py %s' % d['id'],
                      technique=t, level='other', level_note=n) for d, t, n in sorted(claimed, key=lambda x: x[0]['id'])],
         not_applicable=[dict(property=a, reason=b) for a, b in sorted(NA)],
         notes='Static analysis only: every check parses /repo\'s current source and never imports or runs it. No hooks in /repo. See DESIGN.md.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(claimed), 'claimed', len(NA), 'not applicable')
