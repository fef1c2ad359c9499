#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json. The texts of the properties live here."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'pyee/pyexec/'
PROPS = []
NA = []
GO = set()
TECH = 'symbolic execution of the real Python functions, assertions decided by Z3, counterexamples replayed'
NOTE = ('Bounded: every path of the listed units is followed and every obligation decided by Z3 for all values within the '
        'stated bounds (DESIGN.md, evidence file); one solver model per path is replayed on the unmodified code with '
        'standard Python values. Trusts Z3, the models of Python built-ins (checked by that replay and harness.selftest) '
        'and the simulated service manager. Outside: the bounds, the interpreter, msgpack and C extensions.')
GOTECH = 'symbolic execution of the SSA form of the real Go functions, assertions decided by Z3, counterexamples replayed'
GONOTE = ('Bounded: every path of the listed units is followed from the SSA form of the current Go sources and every obligation '
          'decided by Z3 for all values within the stated bounds (DESIGN.md, evidence file); one solver model per path is '
          'replayed on a native build of the same code. Trusts Z3, golang.org/x/tools/go/ssa, the SSA interpreter and its '
          'models (checked by that replay), stand-ins for third-party modules that are not installed, and in place of the '
          'tries maps. Outside: the bounds, consensus, network, database engines.')


def prop(id, title, statement, over, text, why, files, mech, na=None, note=None, state=None, observe=None,
         go=False):
    r = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    if state:
        r['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    r['anchors']['observe_at'] = observe or ['messages on the executor connection', 'values seen by contract code']
    r['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    PROPS.append(r)
    if go:
        GO.add(id)
    if na:
        NA.append({'property': id, 'reason': na})


exec(open(os.path.join(HERE, 'gen', 'texts.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for r in PROPS:
        f.write(json.dumps(r) + '\n')

claimed = [r['id'] for r in PROPS if r['id'] not in {n['property'] for n in NA}]
manifest = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': [{'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
                'technique': GOTECH if i in GO else TECH, 'level': 'model_checking',
                'level_note': GONOTE if i in GO else NOTE} for i in claimed],
    'not_applicable': NA,
    'notes': 'No hooks in /repo: the harness imports the executor from /repo/pyee and rewrites it in memory on every run; Go '
             'sources are copied to a scratch folder and loaded from there. '
             'See DESIGN.md for what each check decides and within which bounds, known_findings.json for repaired defects.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
