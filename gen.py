"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique=None, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level_note=level_note, technique=technique, observe=observe, na=na))


SYM = ('symbolic execution of the real Python functions (operator-overloading proxies over z3 terms, forking at branches), '
       'assertions discharged by z3 for every value within the bounds; counterexamples replayed on the unpatched code')

exec(open(os.path.join(HERE, 'properties_table.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        if p['observe']:
            a['observe_at'] = p['observe']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')

m = dict(version=1, setup_cmd='true',
         checks=[dict(property=p['id'], quick_cmd='bash run.sh %s quick' % p['id'],
                      thorough_cmd='bash run.sh %s thorough' % p['id'],
                      technique=p['technique'] or SYM, level='model_checking', level_note=p['level_note'])
                 for p in P if not p['na']],
         not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p['na']],
         notes='Bounded claims: the bounds of every scenario are in the evidence file and in DESIGN.md.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
