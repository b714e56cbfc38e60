#!/usr/bin/env python3
"""seed.py ID: (re)create seeded/<ID>/patch.diff from tools/seeds/<ID>.mut (same format as mutants; header '=== bug PROP file'),
with demo.cpp/demo.sh and meta.json next to it, after confirming it in a scratch copy: builds, stable tests pass, demo 0 without and !=0 with."""
import sys, os, shutil, subprocess, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
def parse(f):
    cur, part, meta = None, 0, {}
    for l in open(f):
        if l.startswith('=== '):
            p = l[4:].split(); cur = {'prop': p[1], 'file': p[2], 'eds': [['', '', p[2]]]}; part = 0
        elif l.startswith('needs: '): meta['needs'] = l[7:].strip()
        elif l.startswith('breaks: '): meta['what_it_breaks'] = l[8:].strip()
        elif l.startswith('+++ '): cur['eds'].append(['', '', l[4:].strip()]); part = 0
        elif l.rstrip('\n') == '---': part = 1
        else: cur['eds'][-1][part] += l
    cur['meta'] = dict(meta, property=cur['prop'])
    return cur
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(i):
    m = parse(V + '/tools/seeds/%s.mut' % i)
    d = V + '/seeded/' + i
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    try:
        for old, new, f in m['eds']:
            p = '/repo/' + (f if f.startswith('interfaces') or f == 'main.cpp' else 'planner/src/' + f)
            s = open(p).read()
            old, new = old.rstrip('\n'), new.rstrip('\n')
            assert s.count(old) == 1, 'match count %d' % s.count(old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        sh('git -C /repo checkout -- .')
    json.dump(m['meta'], open(d + '/meta.json', 'w'), indent=1)
    dc = V + '/tools/seeds/%s.cpp' % i
    if os.path.exists(dc):
        shutil.copy(dc, d + '/demo.cpp')
    ds = V + '/tools/seeds/%s.sh' % i
    if not os.path.exists(ds):
        ds = V + '/tools/seeds/default.sh'
    shutil.copy(ds, d + '/demo.sh')
    os.chmod(d + '/demo.sh', 0o755)
    r0 = sh('bash /opt/vp/build.sh >/dev/null 2>&1; cd /repo && bash %s/demo.sh' % d)
    res = {'clean': r0.returncode}
    try:
        a = sh('git -C /repo apply %s/patch.diff' % d)
        b = sh('bash /opt/vp/build.sh')
        res['build'] = b.returncode
        t = tempfile.mktemp()
        sh('bash /opt/vp/test.sh ' + t)
        tj = json.load(open(t)); os.remove(t)
        base = json.load(open('/opt/vp/BASELINE.json'))
        names = base.get('stable') or base.get('passed') or base.get('pass') or []
        passed = set(tj.get('passed') or tj.get('pass') or [k for k, v in tj.items() if v in ('passed', 'pass', True)])
        res['tests_missing'] = [x for x in names if x not in passed]
        r1 = sh('cd /repo && bash %s/demo.sh' % d)
        res['patched'] = r1.returncode
        ck = sh('python3 %s/pp/check.py %s' % (V, m['prop']), env=dict(os.environ, PP_NOEV='1'))
        res['check'] = ck.returncode
    finally:
        sh('git -C /repo checkout -- .')
    ok = r0.returncode == 0 and res['build'] == 0 and not res['tests_missing'] and res['patched'] != 0
    print(i, m['prop'], 'VALID' if ok else 'INVALID', 'CAUGHT' if res['check'] == 1 else 'missed(%d)' % res['check'], res if not ok else '')
    if not ok:
        print((r0.stdout + r0.stderr)[-800:], (b.stderr + b.stdout)[-500:] if res['build'] else '', (r1.stdout + r1.stderr)[-500:])
for i in sys.argv[1:]:
    main(i)
