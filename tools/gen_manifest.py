import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = 'Static: decides every obligation from the type-checked AST of the current tree by gated value numbering (no execution, no path enumeration). Obligations the analysis cannot decide are listed as undecided in the evidence and raise no alarm. Trusts clang\'s AST, the models of std/Eigen types, real-number arithmetic.'
NA = json.load(open(V + '/tools/na.json'))
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    d = json.loads(l)
    i = d['id']
    f = V + '/pp/rules/%s.py' % i.lower()
    if os.path.exists(f):
        m = re.search(r'TECHNIQUE = [\'"](.*)[\'"]', open(f).read())
        t = m.group(1) if m else 'static value-number dataflow analysis over the clang AST'
        c = 'python3 pp/check.py ' + i
        checks.append({'property': i, 'quick_cmd': c, 'thorough_cmd': 'env VERIF_TIER=thorough ' + c, 'technique': t, 'level': 'other', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no rule built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash ppdump/build.sh', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
