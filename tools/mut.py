#!/usr/bin/env python3
"""mut.py FILE... [-k SUBSTR]: apply source mutations (scratch copies under /tmp) and show what the checks say.
FILE: blocks  '=== bug|ok PROP[,PROP] path [note]' then old text, '---', new text."""
import sys, os, shutil, subprocess, concurrent.futures, re, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def parse(f):
    out, cur, part = [], None, 0
    for l in open(f):
        if l.startswith('=== '):
            p = l[4:].strip().split(None, 3)
            cur = {'kind': p[0], 'props': p[1].split(','), 'file': p[2], 'note': p[3] if len(p) > 3 else '', 'eds': [['', '']], 'src': os.path.basename(f)}
            out.append(cur); part = 0
        elif l.startswith('+++ ') or l.strip() == '+++':
            cur['eds'].append(['', '', l[4:].strip() or cur['file']]); part = 0
        elif l.rstrip('\n') == '---':
            part = 1
        elif cur is not None:
            cur['eds'][-1][part] += l
    return out
def one(m):
    d = tempfile.mkdtemp(prefix='mut')
    try:
        r = d + '/repo'
        os.makedirs(r + '/interfaces')
        shutil.copytree('/repo/planner/src', r + '/planner/src')
        shutil.copytree('/repo/interfaces/python/src', r + '/interfaces/python/src')
        shutil.copy('/repo/main.cpp', r)
        for e in m['eds']:
            f = e[2] if len(e) > 2 else m['file']
            p = r + '/' + (f if f.startswith('interfaces') or f == 'main.cpp' else 'planner/src/' + f)
            s = open(p).read()
            old, new = e[0].rstrip('\n'), e[1].rstrip('\n')
            if s.count(old) < 1:
                return m, [('?', 'NO MATCH')]
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        res = []
        for pr in m['props']:
            x = subprocess.run([sys.executable, V + '/pp/check.py', pr], capture_output=True, text=True, env=dict(os.environ, PP_REPO=r, PP_NOEV='1'))
            res.append((pr, x.returncode, x.stdout.strip().split('\n')[-2 if x.returncode == 1 else -1][:220] + (x.stderr[-600:] if x.returncode > 1 else '')))
        return m, res
    finally:
        shutil.rmtree(d)
def main():
    fs = [a for a in sys.argv[1:] if not a.startswith('-')]
    k = None
    if '-k' in sys.argv:
        k = sys.argv[sys.argv.index('-k') + 1]
        fs.remove(k)
    ms = [m for f in fs for m in parse(f) if not k or k in m['note'] + ','.join(m['props'])]
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for m, res in ex.map(one, ms):
            if m['kind'] == 'bug':
                ok = any(len(r) > 2 and r[1] == 1 for r in res) and not any(r[1] not in (0, 1) for r in res)
            else:
                ok = all(len(r) > 2 and r[1] == 0 for r in res)
            bad += not ok
            print('%s %s %s %s %s' % ('ok  ' if ok else 'MISS' if m['kind'] == 'bug' else 'ALARM', m['kind'], ','.join(m['props']), m['file'], m['note']))
            if not ok or '-v' in sys.argv:
                for r in res:
                    print('      ', r)
    print('%d mutations, %d not as wanted' % (len(ms), bad))
main()
