#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py writes both."""
import json, os, glob, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, level_note=None, na=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level_note=level_note, na=na, state=state, observe=observe))

INP = ['inputs']
exec(open(os.path.join(ROOT, 'tools/props_data.py')).read())

def main():
    have = set()
    for f in glob.glob(os.path.join(ROOT, 'harness', '*.c')):
        m = re.search(r'//@ property (\w+)', open(f).read())
        if m: have.add(m.group(1))
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as o:
        for p in P:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
            if p['state']: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
            if p['observe']: a['observe_at'] = p['observe']
            assert len(p['title']) <= 80, p['title']
            o.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    checks, na = [], []
    for p in P:
        if p['na']: na.append({'property': p['id'], 'reason': p['na']})
        elif p['id'] in have:
            checks.append({'property': p['id'], 'quick_cmd': 'python3 tools/vf.py check ' + p['id'],
                'thorough_cmd': 'VERIF_TIER=thorough python3 tools/vf.py check ' + p['id'],
                'technique': 'contract-based deductive verification: pre/postconditions and loop invariants on the real C functions, all obligations discharged by CBMC (bit-precise SAT/SMT), counterexamples replayed natively',
                'level': 'proof', 'level_note': p['level_note'] or ''})
        else: na.append({'property': p['id'], 'reason': 'not claimed: no contract harness has been completed for it (the family applies; see DESIGN.md)'})
    json.dump({'version': 1, 'setup_cmd': 'python3 tools/vf.py setup', 'checks': checks, 'not_applicable': na,
        'notes': 'No hooks in /repo: contracts are put on the real source by tools/inject.py on every run. /repo commits by us are "fix:" commits only. See DESIGN.md.'},
        open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties;', len(checks), 'claimed;', len(na), 'not claimed')
main()
