"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'ginko/src/dts/'
P = []      # claimed
NA = []     # not applicable


def p(id, title, statement, over, qtext, why, files, mech, technique, note, observe=()):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=qtext),
                   why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe))),
              technique, note))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=qtext),
                    why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])), reason))


exec(open(os.path.join(ROOT, 'tools', 'props_table.py')).read())

TIME = 900


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for x in sorted([a for a, _, _ in P] + [a for a, _ in NA], key=lambda a: a['id']):
            assert len(x['title']) <= 80, x['id']
            f.write(json.dumps(x) + '\n')
    m = dict(version=1, setup_cmd='python3 -c "from gk import facts; facts.build()"',
             checks=[dict(property=a['id'], quick_cmd='python3 -m gk.run ' + a['id'],
                          thorough_cmd='VERIF_TIER=thorough python3 -m gk.run ' + a['id'],
                          technique=t, level='other', level_note=n) for a, t, n in sorted(P, key=lambda x: x[0]['id'])],
             not_applicable=[dict(property=a['id'], reason=r) for a, r in sorted(NA, key=lambda x: x[0]['id'])])
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
