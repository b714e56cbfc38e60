"""Reeds-Shepp words. For each word of the enumeration the solver's own tables are specialised to that word by partial evaluation of
the syntax tree (word := constant): the motion list must spell the word's name, the reported length must be the sum of the motion
lengths, and the closed forms extracted for (length, t, u, v) must satisfy the identities of the construction (the motions lead from
the start to the goal). Identities between extracted closed forms are tested by random interpretation."""
import math, random, re
from lib import *
TECHNIQUE = 'static partial evaluation of the word tables (AST value numbering) with random-interpretation identity tests of the extracted closed forms'

RS = 'Planner::ReedsShepp::'

def run(C):
    C.assume.append('real arithmetic; turning radius > 0; start and goal in general position for the closed-form identities')
    C.each(words, segment, shortest, path, optimal)

def sig(C, ret, *ps):
    """solver functions of the Reeds-Shepp file by signature"""
    out = []
    for k, f in C.P.F.items():
        if not f.get('body') or not f['q'].startswith(RS) or len(f['ps']) != len(ps):
            continue
        if all(p in C.P.strip(x['t']) for p, x in zip(ps, f['ps'])) and (ret is None or ret in str(f.get('rt') or f.get('ret') or f.get('t') or '')):
            out.append(k)
    return out

def helpers(C):
    gp = [k for k in sig(C, None, 'PathWords', 'double', 'double', 'double') if 'Solver' not in k]
    gm = sig(C, None, 'PathWords', 'array', 'double', 'double', 'double')
    ga = [k for k in sig(C, None, 'Pose2', 'Pose2', 'double') if 'Solver' not in k]
    C.need(len(gp) == 1, 'builder of the motions of a word')
    C.need(len(gm) == 1, 'lengths of a word')
    C.need(len(ga) == 1, 'mirrored goals')
    return gp[0], gm[0], ga[0]

def spell(name):
    """steer, direction, length of each motion a word's name spells"""
    toks = re.findall(r'([LRS])(u?)([fb])(pi2)?', name)
    assert ''.join(a + b + c + d for a, b, c, d in toks) == name, name
    out = []
    for i, (s, m, d, q) in enumerate(toks):
        ln = 'q' if q else 'u' if m or s == 'S' else 't' if i == 0 else 'v' if i == len(toks) - 1 else 'u'
        out.append((s, d, ln))
    return out

def ival(t):
    return int(t.a[1]) if t.op == 'c' and t.a[0] == 'n' else None

def words(C):
    gp, gm, ga = helpers(C)
    W = {a: b for a, b in enum(C, 'PathWords').items() if re.fullmatch(r'([LRS]u?[fb](pi2)?)+', a)}
    ST, DI = enum(C, 'Steer'), enum(C, 'Direction')
    S = {ST['Left']: 'L', ST['Right']: 'R', ST['Straight']: 'S'}
    D = {DI['Forward']: 'f', DI['Backward']: 'b'}
    C.count('words', len(W))
    nw = enum(C, 'PathWords').get('NumPathWords')
    C.ob('words', 'the words are numbered without gaps', C.where(gp), sorted(W.values()) == list(range(len(W))) and nw == len(W) == 48, str(nw))
    par = [sym('pos:' + x, 'r') for x in 'tuv']
    G = C.run(ga)
    pn = [p['n'] for p in C.P.F[ga]['ps']]
    leaf = {}
    for x in subterms(G.ret):
        for i in (0, 1):
            for j, n in enumerate(('.position.0', '.position.1', '.theta')):
                if str(x) == pn[i] + n:
                    leaf[i, j] = x
    R = sym(pn[2], 'r')
    C.need(len(leaf) == 6, 'coordinates used by the mirrored goals')
    on = [p['n'] for p in C.P.F[gm]['ps']][2:]
    for nm, w in sorted(W.items(), key=lambda x: x[1]):
        P = C.run(gp, args={0: const(w), 1: par[0], 2: par[1], 3: par[2]})
        where = C.where(gp) + ' word ' + nm
        ms = fld(P.ret, 'm_motions', 'o')
        if ms.op != 'vec':
            C.ob('words', nm + ' is built as named', where, None, clip(ms))
            continue
        mot = []
        for m in ms.a:
            d, s = ival(fld(m, 'direction', 'i')), ival(fld(m, 'steer', 'i'))
            if d == DI['NoMotion']:
                continue
            mot.append((S.get(s, s), D.get(d, d), fld(m, 'length', 'r')))
        if any(a is None or b is None for a, b, _ in mot):
            C.ob('words', nm + ' is built as named', where, None, clip(ms))
            continue
        want = spell(nm)
        C.ob('words', nm + ' has the turns and directions its name spells', where, [(a, b) for a, b, _ in mot] == [(a, b) for a, b, _ in want], ' '.join(a + b for a, b, _ in mot))
        q = {'t': par[0], 'u': par[1], 'v': par[2], 'q': mul(const(1, 2) if False else inv(const(2)), PI)}
        if len(mot) == len(want):
            for i, (x, y) in enumerate(zip(mot, want)):
                C.same('words', '%s: motion %d has the length computed for it' % (nm, i + 1), where, x[2], q[y[2]])
        tot = add(*[x[2] for x in mot])
        C.same('words', nm + ': the recorded length is the sum of the motion lengths', where, fld(P.ret, 'm_length', 'r'), tot)
        M = C.run(gm, args={0: const(w), 1: G.ret})
        out = [next((M.read(M.S, LV(kk, (), 'double')) for kk in M.S.mem if kk[0] == 'P' and kk[1] == n), None) for n in on]
        if None in out or M.ret is None:
            C.ob('words', nm + ': lengths', C.where(gm), None, 'not reported through the parameters')
            continue
        closed(C, nm, w, C.where(gm) + ' word ' + nm, M.ret, out, mot, par, leaf, R)

def closed(C, nm, w, where, length, out, mot, par, leaf, R):
    n = 1500 if C.tier == 'thorough' else 260
    feas = 0
    bad = {}
    for s in range(n):
        r = random.Random(1000 * w + s)
        rad = r.uniform(.5, 3)
        sc = r.choice([1, 2, 3, 6]) * rad
        pts = [(r.uniform(-sc, sc), r.uniform(-sc, sc), r.uniform(-3.1, 3.1)) for _ in 'ab']
        fx = {R: rad}
        for (i, j), t in leaf.items():
            fx[t] = pts[i][j]
        I = RI(s, fixed=fx)
        try:
            L = I.ev(length)
            ref = reference(nm, w, pts, rad)
            if ref is not None and not L <= ref + 1e-6:
                bad.setdefault('ref', (pts, rad, 'length %.4f, construction gives %.4f' % (L, ref)))
            if L != L or math.isinf(L):
                continue
            tv = [I.ev(x) for x in out]
            if any(x != x for x in tv):
                continue
            K = RI(s, fixed=dict(zip(par, tv)))
            mm = [(a, b, K.ev(l)) for a, b, l in mot]
        except (TypeError, ValueError, OverflowError):
            continue
        feas += 1
        if min(x[2] for x in mm) < -1e-9:
            bad.setdefault('neg', (pts, rad, 'motion lengths %s' % [round(x[2], 4) for x in mm]))
        if abs(sum(abs(x[2]) for x in mm) - L) > 1e-6:
            bad.setdefault('len', (pts, rad, 'reported %.4f, motions %.4f' % (L, sum(abs(x[2]) for x in mm))))
        e = drive((pts[0][0] / rad, pts[0][1] / rad, pts[0][2]), mm)
        if max(abs(e[0] * rad - pts[1][0]), abs(e[1] * rad - pts[1][1]), abs(math.remainder(e[2] - pts[1][2], 2 * math.pi))) > 1e-5:
            bad.setdefault('end', (pts, rad, 'ends at (%.4f, %.4f, %.4f)' % (e[0] * rad, e[1] * rad, e[2])))
    C.count('interpretations', n)
    if any(x.op in VAGUE for t in [length] + out for x in subterms(t)) and bad:
        C.ob('closed', nm + ' lengths', where, None, 'not fully understood')
        return
    for k, what in (('neg', 'a feasible word has no negative motion'), ('len', 'the reported length is the sum of the motions'),
                    ('end', 'the motions lead from the start to the goal'), ('ref', 'a word the construction solves is not reported infeasible or longer')):
        b = bad.get(k)
        C.ob('closed', nm + ': ' + what, where, b is None if (feas or b) else None, 'start %s goal %s radius %.3f: %s' % (tuple(round(x, 3) for x in b[0][0]), tuple(round(x, 3) for x in b[0][1]), b[1], b[2]) if b else '')

def drive(p, ms):
    x, y, th = p
    for s, d, l in ms:
        l = l if d == 'f' else -l
        if s == 'S':
            x += l * math.cos(th)
            y += l * math.sin(th)
        else:
            k = 1 if s == 'L' else -1
            x += k * (math.sin(th + k * l) - math.sin(th))
            y -= k * (math.cos(th + k * l) - math.cos(th))
            th += k * l
    return x, y, th

TAU = 2 * math.pi
H = math.pi / 2
BASE = ['LfSfLf', 'LfSfRf', 'LfRbLf', 'LfRbLb', 'LfRfLb', 'LfRufLubRb', 'LfRubLubRf', 'LfRbpi2SbLb', 'LfRbpi2SbRb', 'LfSfRfpi2Lb', 'LfSfLfpi2Rb', 'LfRbpi2SbLbpi2Rf']

def reference(nm, w, pts, rad):
    """length of the word by the published construction (Reeds & Shepp 1990, sections 8.1 to 8.11), None when it has none"""
    (sx, sy, st), (gx, gy, gt) = pts
    dx, dy = (gx - sx) / rad, (gy - sy) / rad
    x, y, th = dx * math.cos(st) + dy * math.sin(st), -dx * math.sin(st) + dy * math.cos(st), gt - st
    m = spell(nm)
    if m[0][1] == 'b':
        x, th = -x, -th
    if m[0][0] == 'R':
        y, th = -y, -th
    b = nm
    if m[0][0] == 'R':
        b = b.translate(str.maketrans('LR', 'RL'))
    if m[0][1] == 'b':
        b = re.sub(r'([LRS]u?)([fb])', lambda z: z.group(1) + {'f': 'b', 'b': 'f'}[z.group(2)], b)
    if b not in BASE:
        return None
    wrap = lambda a: (a + math.pi) % TAU - math.pi
    ok = lambda *a: all(0.001 < z < math.pi - 0.001 for z in a)
    xm, ym = x - math.sin(th), y - 1 + math.cos(th)
    xp, yp = x + math.sin(th), y - 1 - math.cos(th)
    um, up = math.hypot(xm, ym), math.hypot(xp, yp)
    fm, fp = math.atan2(ym, xm), math.atan2(yp, xp)
    e = 1e-3
    if b == 'LfSfLf':
        t, u, v = fm, um, wrap(th - fm)
        return t + u + v if ok(t, v) else None
    if b == 'LfSfRf':
        if up < 2 + e:
            return None
        u = math.sqrt(up * up - 4)
        t = wrap(fp + math.atan2(2, u))
        v = wrap(t - th)
        return t + u + v if ok(t, v) else None
    if b in ('LfRbLf', 'LfRbLb'):
        if um > 4 - e:
            return None
        a = math.acos(um / 4)
        t, u = (H + a + fm) % TAU, (math.pi - 2 * a) % TAU
        if b == 'LfRbLf':
            v = (th - t - u) % TAU
            return t + u + v if ok(t, u, v) else None
        return t + u + (t + u - th) % TAU
    if b == 'LfRfLb':
        if um > 4 - e or um < e:
            return None
        u = math.acos((8 - um * um) / 8)
        t = (H - math.asin(2 * math.sin(u) / um) + fm) % TAU
        return t + u + (t - u - th) % TAU
    if b == 'LfRufLubRb':
        if up > 4 - e or abs(up - 2) < e:
            return None
        if up > 2:
            a = math.acos(up / 4 - .5)
            t, u = (H + fp - a) % TAU, math.pi - a
        else:
            a = math.acos(up / 4 + .5)
            t, u = (H + fp + a) % TAU, a
        return t + 2 * u + (th - t + 2 * u) % TAU
    if b == 'LfRubLubRf':
        z = 1.25 - up * up / 16
        if not e < z < 1 - e or up > 6:
            return None
        u = math.acos(z)
        s = 2 * math.sin(u) / up
        if s > 1:
            return None
        t = (H + fp + math.asin(s)) % TAU
        return t + 2 * u + (t - th) % TAU
    if b in ('LfRbpi2SbLb', 'LfSfRfpi2Lb'):
        if um * um < 8 + e:
            return None
        u = math.sqrt(um * um - 4) - 2
        if b == 'LfRbpi2SbLb':
            t = (H + fm + math.atan2(2, u + 2)) % TAU
            return t + H + u + (t + H - th) % TAU
        t = (H + fm - math.atan2(u + 2, 2)) % TAU
        return t + H + u + (t - H - th) % TAU
    if b in ('LfRbpi2SbRb', 'LfSfLfpi2Rb'):
        if up < 2 + e:
            return None
        if b == 'LfRbpi2SbRb':
            t = (H + fp) % TAU
            return t + H + up - 2 + (th - t - H) % TAU
        t = fp % TAU
        return t + H + up - 2 + (th - t - H) % TAU
    if b == 'LfRbpi2SbLbpi2Rf':
        if up * up < 20 + e:
            return None
        u = math.sqrt(up * up - 4) - 4
        t = (H + fp + math.atan2(2, u + 4)) % TAU
        return t + u + math.pi + (t - th) % TAU

def segment(C):
    k = C.func(RS + 'PathSegment::GetLength', 1)
    I = C.run(k)
    C.same('segment', 'the length of a path is its recorded length times the turning radius', C.where(k), I.ret, mul(fld(raw('obj', sym('this', 'p')), 'm_length', 'r'), sym(C.P.F[k]['ps'][0]['n'], 'r')))
    k = C.func(RS + 'IsPathWordValid', 1)
    x = sym('w', 'i')
    I = C.run(k, args={0: x})
    C.same('segment', 'exactly the named words are valid', C.where(k), I.ret, and_(le(ZERO, x), lt(x, const(48))), n=60)

def at(e):
    return '%s:%s' % (e.file.split('/src/')[-1] if e.file else '?', e.line)

def scan(C, I, w, gmn):
    """the loop evaluating the words: every word once, on the goals of this query; returns (loop, call event)"""
    ev = [e for e in I.events if e.kind == 'call' and e.name == gmn]
    C.need(ev, 'evaluation of the words')
    e = ev[0]
    L = I.loops.get(e.loops)
    if len(ev) != 1 or L is None:
        C.ob('scan', 'every word is evaluated', w, None, '%d evaluations' % len(ev))
        return None, e
    t = trips(L)
    iv = raw('iv', L.id)
    base = None
    if t is not None and e.args[0] is not None:
        d = sub(e.args[0], iv)
        base = ival(d)
        if base is not None:
            C.ob('scan', 'every word is evaluated', at(e), ival(t) == 48 and base == 0 if ival(t) is not None else None, 'words %s to %s' % (base, clip(add(t, d))))
        elif add(e.args[0], iv) is const(47):
            C.ob('scan', 'every word is evaluated', at(e), ival(t) == 48, clip(t))
        else:
            C.ob('scan', 'every word is evaluated', at(e), None, clip(e.args[0]))
    else:
        C.ob('scan', 'every word is evaluated', at(e), False if any(q[0] != 'normal' for q in L.exits) else None, 'the scan can stop early')
    extra = [l for l in literals(e.guard) if not entails((L.cond,) if L.cond is not None else (), l)]
    C.ob('scan', 'no word is skipped before it is evaluated', at(e), True if not extra else None if ops_of(and_(*extra)) & set(VAGUE) else False, '; '.join(clip(x, 120) for x in extra))
    return L, e

def shortest(C):
    gp, gm, ga = helpers(C)
    n = [C.P.F[k]['n'] for k in (gp, gm, ga)]
    k = C.func(RS + 'Solver::GetShortestDistance', 5)
    w = C.where(k)
    pn = [p['n'] for p in C.P.F[k]['ps']]
    I = C.run(k, opaque=tuple(n), unroll=6)
    L, e = scan(C, I, w, n[1])
    goals(C, I, k, n[2], e)
    if L is None:
        return
    val = candidates(L)
    # reported distance
    rad = sym(pn[2], 'r')
    best = [loc for loc in L.phi if I_uses(I.ret, L.phi[loc])]
    if len(best) == 1:
        p = L.phi[best[0]]
        C.same('shortest', 'the distance reported is that of the best word, in units of the turning radius', w, I.ret, mul(p, rad))
        c = val.get(best[0])
        C.ob('shortest', 'the distance compared is that of the word', at(e), True if c is not None and same_call(c, e) else None, clip(c))
    else:
        C.ob('shortest', 'the distance reported is that of the best word', w, None, clip(I.ret))
    # reported word and parameters
    for i, want, what in ((3, 'word', 'word'), (4, 'par', 'parameters')):
        ps = sym(pn[i], 'p')
        got = I.read(I.S.fork(not_(eq(ps, NULL))), I.deref(ps, C.P.pointee(C.P.F[k]['ps'][i]['t']) or ''))
        got = simp_under(got, (not_(eq(ps, NULL)),))
        if want == 'word':
            loc = next((l for l in L.phi if L.phi[l] is got), None)
            c = val.get(loc)
            C.ob('shortest', 'the word reported is the word evaluated', w, True if c is not None and c is e.args[0] else False if c is not None and c.op in ('poly', 'iv', 'c') else None, clip(got if c is None else c))
        else:
            for j in range(3):
                x = fld(got, str(j), 'r') if not got.op == 'vec' else got.a[j]
                loc = next((l for l in L.phi if L.phi[l] is x), None)
                c = val.get(loc)
                C.ob('shortest', 'parameter %d reported is that of the word' % (j + 1), w, (c.op == 'app' and c.a[0] == 'out:%s:%d' % (n[1], j + 2)) if c is not None and c.op == 'app' and str(c.a[0]).startswith('out:') else None, clip(x if c is None else c))

def same_call(c, e):
    return c is e.res

def I_uses(t, p):
    return p in subterms(t)

def candidates(L):
    """for every location carried round the loop: the one value it is replaced by (None when there are several)"""
    out = {}
    for loc, nx in L.next.items():
        lv = {x for x in leaves(nx) if x is not L.phi.get(loc)}
        if len(lv) == 1:
            out[loc] = lv.pop()
    return out

def leaves(t):
    if t.op == 'ite':
        return leaves(t.a[1]) | leaves(t.a[2])
    return {t}

def goals(C, I, k, gan, e):
    ps = C.P.F[k]['ps']
    want = [sym(ps[0]['n'], 'o'), sym(ps[1]['n'], 'o'), sym(ps[2]['n'], 'r')]
    ev = [x for x in I.events if x.kind == 'call' and x.name == gan]
    C.need(ev, 'mirrored goals')
    g = ev[0]
    C.ob('scan', 'the words are evaluated for the start, goal and turning radius of the query', at(g), all(a is b for a, b in zip(g.args, want)), ', '.join(clip(a, 80) for a in g.args))
    C.ob('scan', 'the words are evaluated on the mirrored goals', at(e), True if e.args[1] is g.res else None, clip(e.args[1]))

def path(C):
    gp, gm, ga = helpers(C)
    gpn = C.P.F[gp]['n']
    k = C.func(RS + 'Solver::GetShortestPath', 4)
    w = C.where(k)
    ps = C.P.F[k]['ps']
    I = C.run(k, opaque=(gpn, 'GetShortestDistance'), unroll=6)
    ev = [x for x in I.events if x.kind == 'call' and x.name == 'GetShortestDistance']
    bl = [x for x in I.events if x.kind == 'call' and x.name == gpn]
    C.need(ev and bl, 'shortest word and its path')
    q, b = ev[0], bl[0]
    want = [sym(ps[0]['n'], 'o'), sym(ps[1]['n'], 'o'), sym(ps[2]['n'], 'r')]
    C.ob('path', 'the shortest word is that of the query', at(q), all(x is y for x, y in zip(q.args, want)), ', '.join(clip(a, 80) for a in q.args))
    def out(t, i):
        return t is not None and t.op == 'app' and t.a[0] == 'out:GetShortestDistance:%d' % i
    C.ob('path', 'the path is built for the shortest word', at(b), True if out(b.args[0], 3) else None, clip(b.args[0]))
    for j in range(3):
        a = b.args[1 + j]
        okv = None
        if a.op == 'fld' and out(a.a[0], 4):
            okv = str(a.a[1]) == str(j)
        C.ob('path', 'the path is built with parameter %d of the shortest word' % (j + 1), at(b), okv, clip(a))
    p = sym(ps[3]['n'], 'p')
    got = simp_under(I.read(I.S.fork(not_(eq(p, NULL))), I.deref(p, C.P.pointee(ps[3]['t']) or '')), (not_(eq(p, NULL)),) + tuple(literals(b.guard)))
    C.ob('path', 'the word reported is the word of the path', w, True if got is b.args[0] else None if ops_of(got) & set(VAGUE) else False, clip(got))
    valid(C, I, b.args[0], w)
    r = simp_under(I.ret, tuple(literals(b.guard)))
    C.ob('path', 'the path returned is the path built', w, True if r is b.res else None, clip(r))

def valid(C, I, word, w):
    """no path is returned when no word is valid"""
    r = simp_under(I.ret, (le(const(48), word),))
    r2 = simp_under(I.ret, (lt(word, ZERO),))
    for x in (r, r2):
        n = fld(x, 'm_length', 'r')
        C.ob('path', 'without a valid word the path has no motion', w, True if n is ZERO else None, clip(n))

def optimal(C):
    gp, gm, ga = helpers(C)
    n = [C.P.F[k]['n'] for k in (gp, gm, ga)]
    k = C.func(RS + 'Solver::GetOptimalPath', 7)
    w = C.where(k)
    ps = C.P.F[k]['ps']
    I = C.run(k, opaque=tuple(n) + ('ComputeCost',), unroll=6)
    L, e = scan(C, I, w, n[1])
    goals(C, I, k, n[2], e)
    if L is None:
        return
    bl = [x for x in I.events if x.kind == 'call' and x.name == n[0]]
    C.need(bl, 'paths of the words')
    b = bl[0]
    C.ob('optimal', 'the path is built for the word evaluated', at(b), b.args[0] is e.args[0] if ops_of(b.args[0]) <= {'iv', 'poly', 'c'} else None, clip(b.args[0]))
    for j in range(3):
        a = b.args[1 + j]
        C.ob('optimal', 'the path is built with parameter %d of the word' % (j + 1), at(b), a.a[0] == 'out:%s:%d' % (n[1], j + 2) if a.op == 'app' and str(a.a[0]).startswith('out:' + n[1]) else None, clip(a))
    skip = [l for l in literals(b.guard) if not entails((L.cond,) if L.cond is not None else (), l)]
    s = and_(*skip)
    f = sym('pos:finite', 'r')
    C.ob('optimal', 'only infeasible words are left out', at(b), True if subst(s, {e.res: f}) is TRUE else None if ops_of(s) & set(VAGUE) else False, clip(s))
    val = candidates(L)
    p = sym(ps[6]['n'], 'p')
    got = simp_under(I.read(I.S.fork(not_(eq(p, NULL))), I.deref(p, C.P.pointee(ps[6]['t']) or '')), (not_(eq(p, NULL)),))
    loc = next((l for l in L.phi if L.phi[l] is got), None)
    c = val.get(loc)
    C.ob('optimal', 'the word reported is the word evaluated', w, c is e.args[0] if c is not None and ops_of(c) <= {'iv', 'poly', 'c'} else None, clip(got if c is None else c))
    if loc is not None:
        g = (le(ZERO, got), lt(got, const(48)))
        r = simp_under(I.ret, g)
        ml = fld(r, 'm_length', 'r')
        l2 = next((l for l in L.phi if L.phi[l] is ml), None)
        c2 = val.get(l2)
        C.ob('optimal', 'the path returned is the one built for its word', w, True if c2 is not None and c2 is fld(b.res, 'm_length', 'r') else None, clip(ml if c2 is None else c2))
        valid(C, I, got, w)
