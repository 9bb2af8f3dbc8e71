#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing; no check runs it)."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
P = []       # claimed
NA = []      # not applicable


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                **({'state': state} if state else {}), observe_at=observe or [], hook_needed=None)), technique, note))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[], hook_needed=None)), reason))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'spec_entries.py')).read())

assert len({p[0]['id'] for p in P + NA}) == len(P + NA)
for p in P + NA:
    assert len(p[0]['title']) <= 80, p[0]['title']
    for f in p[0]['anchors']['files']:
        assert os.path.exists('/repo/' + f), f
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for p in P + NA:
        fh.write(json.dumps(p[0]) + '\n')
man = dict(version=1, setup_cmd='python3 -c "import ast, json, sys; sys.exit(sys.version_info < (3, 10))"',
           checks=[dict(property=d['id'], quick_cmd=f'python3 check.py {d["id"]}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {d["id"]}',
                        technique=t, level='other', level_note=n) for d, t, n in P],
           not_applicable=[dict(property=d['id'], reason=r) for d, r in NA])
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1)
    fh.write('\n')
print(len(P), 'claimed', len(NA), 'not applicable')
