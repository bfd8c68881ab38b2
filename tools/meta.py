"""Writes properties.jsonl and MANIFEST.json.  python3 tools/meta.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, level='proof', note='', tech=''):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level=level, note=note, tech=tech))
NA = []
exec(open(os.path.join(V, 'tools', 'props.py')).read())

TECH = 'contract-based deductive verification of the real code: contracts over the LLVM IR of /repo, symbolic VC generation, exact polynomial identities + z3/cvc5'
NOTE = 'Every contract obligation is discharged for all inputs on each run from the current source; machine floating point is treated as exact reals. '
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
            why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], hook_needed=None))) + '\n')
na = {x[0] for x in NA}
m = dict(version=1, setup_cmd='bash tools/setup.sh',
         hooks=dict(guard='none', enable='no hooks: the checks compile the unmodified headers and sources of /repo', source_commits=[]),
         checks=[dict(property=p['id'], quick_cmd='python3-vt -m dv.run %s --tier quick' % p['id'], thorough_cmd='python3-vt -m dv.run %s --tier thorough' % p['id'],
                      evidence_file='evidence/%s.json' % p['id'], technique=p['tech'] or TECH, level=p['level'], level_note=NOTE + p['note']) for p in P if p['id'] not in na],
         not_applicable=[dict(property=a, reason=b) for a, b in NA],
         notes='See DESIGN.md. known-findings.json lists repaired and recorded defects.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(m['checks']), 'checks')

# ---- DESIGN.md
import glob
d = open(os.path.join(V, 'tools', 'design.in.md')).read()
rows = []
for p in P:
    if p['id'] in na:
        continue
    rows.append('* **%s** %s. Decided by contracts on `%s`; quantified over: %s. %s' % (p['id'], p['title'], '`, `'.join(p['files']), p['text'], p['note']))
d = d.replace('PROPTABLE', '\n'.join(rows))
caught = json.load(open(os.path.join(V, 'tools', 'caught.json')))
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(f)); mm = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (i, mm['property'], mm['needs'], caught.get(i, 'not yet run')))
d = d.replace('SEEDTABLE', '\n'.join(rows))
d = d.replace('NATABLE', '\n'.join('* %s: %s' % (a, b) for a, b in NA) or 'none')
open(os.path.join(V, 'DESIGN.md'), 'w').write(d)
