#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's current source. Exit 0 held, 1 violated, 2 error."""
import os, sys, json, time, importlib, traceback
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, extract

def known():
    out = []
    f = os.path.join(lib.VERIF, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('known: '):
                d = dict(x.split('=', 1) for x in l[7:].split(' | ')[0].split() if '=' in x)
                d['text'] = l.split(' | ', 1)[1] if ' | ' in l else ''
                out.append(d)
    return out

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        mod = importlib.import_module('rules.' + pid.lower())
        C = lib.Ctx(pid, tier)
        run = mod.run
        C.each(run)
        if not [o for o in C.obs if o.verdict != 'undecided']:
            for o in C.obs[:3]:
                print(o.what)
            raise lib.AnchorError('no obligation found: nothing was analysed')
    except (lib.AnchorError, extract.ExtractError) as e:
        print('ERROR property=%s %s: %s' % (pid, type(e).__name__, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s internal error' % pid)
        return 2
    kn = [k for k in known() if k.get('property') == pid]
    bad, listed = [], []
    for o in C.obs:
        if o.verdict == 'violated':
            m = [k for k in kn if k.get('rule') == o.rule and k.get('where', '') in o.where]
            (listed if m else bad).append((o, m[0] if m else None))
    und = [o for o in C.obs if o.verdict == 'undecided']
    ok = [o for o in C.obs if o.verdict == 'holds']
    wall = time.time() - t0
    rules = {}
    for o in C.obs:
        rules.setdefault(o.rule, [0, 0, 0])['holds violated undecided'.split().index(o.verdict)] += 1
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(wall, 2), 'violations': len(bad),
          'coverage': {
              'explanation': (mod.__doc__ or '').strip(),
              'obligations': len(C.obs), 'discharged': len(ok), 'undecided': [o.json() for o in und],
              'rules': {r: {'holds': v[0], 'violated': v[1], 'undecided': v[2]} for r, v in sorted(rules.items())},
              'functions_analysed': sorted(C.P.F[k]['q'] for k in C.analysed if k in C.P.F)[:400],
              'counts': C.counts, 'translation_units': len(C.P.units),
              'samples': [o.json() for o in ok[:12]],
              'known_findings': [o.json() for o, _ in listed]},
          'assumptions': C.assume}
    evd = 'build/ev' if os.environ.get('PP_NOEV') else 'evidence'
    os.makedirs(os.path.join(lib.VERIF, evd), exist_ok=True)
    json.dump(ev, open(os.path.join(lib.VERIF, evd, pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations over %d functions: %d hold, %d violated, %d undecided (%.1fs)' % (
        pid, len(C.obs), len(C.analysed), len(ok), len(bad) + len(listed), len(und), wall))
    if '-v' in sys.argv or os.environ.get('PP_V'):
        for o in C.obs:
            print(' ', o.verdict, '|', o.rule, '|', o.what, '|', o.where, '|', o.detail[:400])
    for o in und:
        print('undecided: %s: %s at %s %s' % (o.rule, o.what, o.where, o.detail[:200]))
    for o, k in listed:
        print('KNOWN-FINDING: property=%s %s at %s: %s' % (pid, o.what, o.where, k['text']))
    if bad:
        d = os.path.join(lib.VERIF, 'build', 'report')
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, pid + '.txt')
        with open(f, 'w') as h:
            for o, _ in bad:
                h.write('%s | %s | %s\n    %s\n' % (o.rule, o.what, o.where, o.detail))
        for o, _ in bad[:10]:
            print('  %s: %s at %s: %s' % (o.rule, o.what, o.where, o.detail[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, f))
        return 1
    return 0

if __name__ == '__main__':
    sys.exit(main())
