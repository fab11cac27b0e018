# -*- coding: utf-8 -*-
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None,
         note='', claimed=True, na=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, state=state, observe=observe, hook=hook, note=note,
                  claimed=claimed, na=na, technique=technique))


exec(open(os.path.join(HERE, 'tools', 'props_data.py'), encoding='utf-8').read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'state': [dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                        'mechanism': [dict(name=a, where=b) for a, b in p['mech']],
                        'observe_at': list(p['observe']), 'hook_needed': p['hook']},
        }, ensure_ascii=False) + '\n')

checks, na = [], []
for p in P:
    have = os.path.exists(os.path.join(HERE, 'harness', 'chk_%s.py' % p['id'].lower()))
    if p['claimed'] and have:
        checks.append({
            'property': p['id'],
            'quick_cmd': 'bin/check %s' % p['id'],
            'thorough_cmd': 'VERIF_TIER=thorough bin/check %s' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p['technique'] or 'TLA+ model checked by TLC, bound to the code by replaying every explored transition and validating recorded traces',
            'level': 'model_checking',
            'level_note': p['note'] or 'Exhaustive over the small constants stated in DESIGN.md; random beyond them; trusts TLC and the projection of implementation state.',
        })
    else:
        na.append({'property': p['id'], 'reason': p['na'] or 'check under construction'})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+/TLC. See DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
print(len(P), 'properties', len(checks), 'checks')
