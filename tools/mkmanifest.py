"""Writes properties.jsonl and MANIFEST.json from vc/properties.py and vc/units.py."""
import json, sys
sys.path.insert(0, '/verif')
from vc.properties import PROPERTIES, NA
from vc.units import PROPS, UNITS

with open('/verif/properties.jsonl', 'w') as f:
    for p in PROPERTIES:
        p = dict(p)
        anchors = p['anchors']
        p['anchors'] = dict(files=anchors['files'],
                            mechanism=[dict(name=n, where=w) for n, w in anchors['mechanism']],
                            state=[dict(name=n, meaning=m, where=w) for n, m, w in anchors.get('state', [])],
                            observe_at=anchors['observe_at'], hook_needed=None)
        p['quantifier'] = dict(over=p['quantifier'][0], text=p['quantifier'][1])
        f.write(json.dumps(p) + '\n')
checks = []
for p in PROPERTIES:
    i = p['id']
    if i not in PROPS:
        assert i in NA, i
        continue
    s = PROPS[i]
    us = [UNITS[u] for u in s['units']]
    c = sorted({f for u in us if u.kind != 'bounded' for f in u.funcs})
    b = sorted({f for u in us for f in u.funcs} - set(c))
    note = ''
    if c:
        note += 'Discharged without bound: %s. ' % ', '.join(c)
    if b:
        note += 'Bounded stand-ins (not counted as proved; bounds in the evidence file): %s. ' % ', '.join(b)
    note += 'Assumes the executable contracts in models/ for GLib, libgsf and libc, and CBMC.'
    if s.get('note'):
        note += ' ' + s['note']
    checks.append(dict(property=i, quick_cmd='./check ' + i, thorough_cmd='./check %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique='contracts on the real C functions, obligations discharged by CBMC' ,
                       level=s['level'], level_note=note))
json.dump(dict(version=1, setup_cmd='./setup', checks=checks,
               hooks=dict(guard='VH_HOOKS', enable='no hooks are needed: the harnesses include the source files of /repo unchanged', source_commits=[]),
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
               notes='Decision machinery: vc/ (driver), harness/ (contracts), models/ (assumed contracts of libraries). See DESIGN.md.'),
          open('/verif/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(json.load(open('/verif/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
    sc = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open('/verif/properties.jsonl'):
        jsonschema.validate(json.loads(l), sc)
    print('schemas ok', len(checks))
except ImportError:
    print('no jsonschema')
