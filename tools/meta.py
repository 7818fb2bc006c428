#!/usr/bin/env python3
"""generates /verif/properties.jsonl and /verif/MANIFEST.json from the table below"""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, level='other', na=None, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    assert len(title) <= 80, title
    P.append(dict(p={'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
                     'why_tests_cant': why, 'anchors': a}, technique=technique, note=note, level=level, na=na))


exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())

with open(ROOT + '/properties.jsonl', 'w') as f:
    for e in P:
        f.write(json.dumps(e['p']) + '\n')
m = {'version': 1, 'setup_cmd': 'chmod +x check.sh && python3-vt -c "import sys; sys.path.insert(0, \'sa\'); import irlib, sym"',
     'checks': [{'property': e['p']['id'], 'quick_cmd': './check.sh %s quick' % e['p']['id'],
                 'thorough_cmd': './check.sh %s thorough' % e['p']['id'],
                 'technique': e['technique'], 'level': e['level'], 'level_note': e['note']} for e in P if not e['na']],
     'not_applicable': [{'property': e['p']['id'], 'reason': e['na']} for e in P if e['na']],
     'notes': 'Every check recompiles /repo\'s current sources to LLVM IR in a scratch directory and decides the property on it; nothing of the repository is executed. Known findings: known_findings.jsonl. Generated by tools/meta.py from tools/props.py.'}
with open(ROOT + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for e in P:
        jsonschema.validate(e['p'], sch)
except ImportError:
    pass
print(len(P), 'properties,', len(m['checks']), 'checks')


def design():
    s = open(ROOT + '/tools/design.md').read()
    L = []
    for e in P:
        p = e['p']
        L.append('### %s %s\n' % (p['id'], p['title']))
        if e['na']:
            L.append('Not applicable: %s\n' % e['na'])
        else:
            L.append('%s\n\n*Method:* %s. %s\n\n*Why tests cannot:* %s\n' % (p['statement'], e['technique'], e['note'], p['why_tests_cant']))
    s = s.replace('@@PROPS@@', '\n'.join(L))
    k = []
    for x in open(ROOT + '/known_findings.jsonl'):
        if x.strip():
            x = json.loads(x)
            if x['status'] == 'known':
                k.append('* %s `%s`: %s' % (x['property'], x['key'], x['what']))
    s = s.replace('@@KNOWN@@', '\n'.join(k))
    rows = []
    rp = ROOT + '/tools/seeded_results.json'
    res = json.load(open(rp)) if os.path.exists(rp) else {}
    sd = ROOT + '/seeded'
    for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        mp = os.path.join(sd, d, 'meta.json')
        if os.path.exists(mp):
            mm = json.load(open(mp))
            rows.append('| %s | %s | %s | %s |' % (d, mm['property'], mm['what_it_breaks'].replace('|', '/'), ', '.join(res.get(d, [])) or '(missed)'))
    s = s.replace('@@SEEDED@@', '| bug | property | what it breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(rows))
    open(ROOT + '/DESIGN.md', 'w').write(s)


if os.path.exists(ROOT + '/tools/design.md'):
    design()
