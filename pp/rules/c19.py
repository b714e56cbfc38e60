"""The gate of the smoother: what a non-negative status says about the path exposed, which poses a gradient step can reach, and what Hybrid A*
does with the outcome."""
from lib import *
from rules.c03 import method, arms, rets, site, HOP, HPURE

this = sym('this', 'p')
me = raw('obj', this)
TECHNIQUE = 'static analysis: gate (typestate) and write-set analysis on the symbolic transfer function of the smoother'
SM = 'Planner::Smoother'
SOP = ('IsStateValid', 'IsInsideMap', 'WorldPositionToGridCell', 'GridCellToWorldPosition', 'GetNearestObstacleCell', 'GetNearestVoronoiEdgeCell', 'GetDistanceToNearestObstacle')
ZERO = const(0)

def named(C, n):
    return [k for k in sorted(C.P.F) if C.P.F[k]['n'] == n and C.P.F[k].get('cls') == SM and C.P.F[k].get('body')]

def smooth_run(C):
    ks = named(C, 'Smooth')
    C.need(ks, 'no Smoother::Smooth')
    return ks[0], C.run(ks[0], opaque=SOP, nomut=SOP)

def held(I, S):
    return fld(I.read(S, I.deref(this, SM)), 'm_currentPath', 'o')

def calls(t):
    return [x for x in subterms(t) if x.op == 'app' and x.a[0] == 'call:IsStateValid']

def over(x):
    """the path one of whose poses is handed to the validator"""
    p = x.a[3] if len(x.a) > 3 else None
    while p is not None and p.op in ('fld', 'st', 'with') and p.a and isinstance(p.a[0], T):
        p = p.a[0]
    return (p.a[0], p.a[1]) if p is not None and p.op == 'vget' else (None, None)

def covered(F, P):
    """which of the poses of a path of six the quantified condition speaks about"""
    body = F.a[0]
    iv = [x for x in subterms(body) if x.op == 'iv' and x.a[0] == ('#',)]
    if not iv:
        return None
    got = set()
    for c in range(10):
        b = subst(body, {iv[0]: const(c), size(P): const(6)})
        for l in literals([b]):
            if l.op == 'app' and l.a[0] == 'call:IsStateValid':
                v, i = over(l)
                if v is P and isnum(i):
                    got.add(int(i.a[1]))
    return got

def ignores(g, Fs):
    for seed in range(60):
        r = RI(seed, fixed={x: False for x in Fs})
        try:
            if all(r.ev(l) for l in g if set(subterms(l)) & set(Fs)):
                return True
        except Exception:
            return False
    return False

def gathered(I, acc, P):
    """a flag kept true by a loop only while every pose seen so far is valid: which poses of six it has seen"""
    for l in acc:
        if l.op != 'phi':
            continue
        L = I.loops[l.a[0][0]]
        kk = l.a[0][1:]
        iv = raw('iv', L.id)
        if L.init.get(kk) is not TRUE:
            continue
        bg = literals(list(L.backguard or ()))
        nx = L.next[kk]
        cs = [x for x in literals([nx]) if x.op == 'app' and x.a[0] == 'call:IsStateValid']
        if not cs or not (l in bg or l in literals([nx])):
            continue
        got = set()
        for c in range(10):
            d = {iv: const(c), size(P): const(6)}
            go = [subst(x, d) for x in bg if iv in set(subterms(x)) and not calls(x)]
            if not go or any(x not in (TRUE, FALSE) for x in go):
                return None
            if all(x is TRUE for x in go):
                for y in cs:
                    v, i = over(subst(y, d))
                    if v is P and isnum(i):
                        got.add(int(i.a[1]))
        return got
    return None

def gate(C):
    k, I = smooth_run(C)
    n = 0
    for e in rets(I):
        P0 = held(I, e.S)
        for v, g in arms(e.args[0]):
            g = tuple(literals(e.guard)) + g
            if unsat(g) or entails(g, lt(v, ZERO)):
                continue
            n += 1
            w = site(e)
            what = 'a non-negative status is returned only after every pose of the path then exposed passed the state validator'
            P = simp_under(P0, g)
            Fs = [x for l in g for x in subterms(l) if x.op == 'forall' and calls(x)]
            mine = [x for x in Fs if any(over(y)[0] is P for y in calls(x))]
            lits = set(literals(list(g)))
            acc = [l for l in lits for x in subterms(l) if x.op == 'phi' and ty(x) == 'b' and x.a[0][0] in I.loops and any(calls(y) for y in I.loops[x.a[0][0]].next.values())]
            if not entails(g, not_(lt(v, ZERO))):
                C.ob('gate', what, w, None, 'status ' + clip(v, 100))
            elif acc and not mine:
                got = gathered(I, acc, P)
                C.ob('gate', what, w, None if got is None else set(range(6)) <= got, 'poses validated on a path of six: %s' % sorted(got or ()))
            elif not any(calls(l) for l in g):
                C.ob('gate', what, w, False, 'no pose of the path was validated where %s is returned' % clip(v, 40))
            elif mine:
                pos = [x for x in mine if x in lits]
                if not pos:
                    C.ob('gate', what, w, False if ignores(g, mine) else None, 'the status is returned although a pose failed the validator')
                else:
                    cv = [covered(x, P) for x in pos]
                    full = set().union(*[c for c in cv if c])
                    want = set(range(6))
                    C.ob('gate', what, w, True if want <= full else None if None in cv or not full else False, 'poses validated on a path of six: %s' % sorted(full))
            elif Fs:
                V = over(calls(Fs[0])[0])[0]
                C.ob('gate', what, w, None if V is None else False, 'the path validated is %s, the path exposed is %s' % (clip(V, 120), clip(P, 120)))
            else:
                C.ob('gate', what, w, None, 'validated outside a loop: ' + clip_guard(g, 200))
    C.need(n, 'Smooth never reports success')
    for kk in named(C, 'GetPath'):
        J = C.run(kk)
        C.same('expose', 'the path handed out by the smoother is the one it validated', C.where(kk), J.ret, fld(me, 'm_currentPath', 'o'))

class Unknown(Exception):
    pass

def inv(I, L, p):
    """facts about a carried index: it never goes below its entry value"""
    x = I.loops[p.a[0][0]]
    kk = p.a[0][1:]
    ini, nx = x.init.get(kk), x.next.get(kk)
    if ini is None or nx is None or not isnum(ini):
        return ()
    for y, g in arms(nx):
        d = sub(y, p)
        if not (isnum(d) and d.a[1] >= 0):
            return ()
    return (le(ini, p),)

def elems(I, v, g, seen):
    """(value, guard) of every element a vector of indices may hold"""
    if v in seen:
        return
    seen = seen | {v}
    if v.op == 'vec':
        for x in v.a:
            yield x, g
    elif v.op == 'push':
        yield from elems(I, v.a[0], g, seen)
        for x, h in arms(v.a[1]):
            yield x, g + h
    elif v.op == 'ite':
        for x, h in arms(v):
            yield from elems(I, x, g + h, seen)
    elif v.op == 'phi' and v.a[0][0] in I.loops:
        L = I.loops[v.a[0][0]]
        kk = v.a[0][1:]
        if kk not in L.init or kk not in L.next:
            raise Unknown('vector ' + clip(v, 80))
        yield from elems(I, L.init[kk], tuple(literals(list(L.headguard or ()))), seen)
        yield from elems(I, L.next[kk], tuple(literals(list(L.backguard or ()))), seen)
    else:
        raise Unknown('vector ' + clip(v, 80))

def writes(I, v, g, seen, base):
    """(vector before, index, value, guard) of every element store a vector may have gone through since one of the vectors in base"""
    if v in seen or base(v):
        return
    seen = seen | {v}
    if v.op == 'vset':
        yield v.a[0], v.a[1], v.a[2], g
        yield from writes(I, v.a[0], g, seen, base)
    elif v.op == 'ite':
        for x, h in arms(v):
            yield from writes(I, x, g + h, seen, base)
    elif v.op == 'phi' and v.a[0][0] in I.loops:
        L = I.loops[v.a[0][0]]
        kk = v.a[0][1:]
        if kk not in L.init or kk not in L.next:
            raise Unknown('vector ' + clip(v, 80))
        yield from writes(I, L.init[kk], g, seen, base)
        yield from writes(I, L.next[kk], tuple(literals(list(L.backguard or ()))), seen, base)
    else:
        raise Unknown('vector ' + clip(v, 80))

def zero(t):
    return t.op == 'fill' and len(t.a) > 1 and t.a[1].op == 'st' and all(isnum(x) and x.a[1] == 0 for x in st_fields(t.a[1]))

def st_fields(t):
    out = []
    for a in t.a:
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, (tuple, list)):
            out += [x[1] for x in a if isinstance(x, (tuple, list)) and len(x) == 2 and isinstance(x[1], T)]
        elif isinstance(a, dict):
            out += [x for x in a.values() if isinstance(x, T)]
    return out or [sym('none', 'r')]

def position(p):
    q = fld(p, 'position', 'o')
    return [fld(q, c, 'r') for c in ('0', '1')]

def gradient_only(vec, i, val, F):
    """the pose stored is the old one moved by multiples of the vector element with its own index: the vectors holding those elements"""
    old = vget(vec, i, 'o')
    cand = {x for x in subterms(val) if x.op == 'vget' and x.a[1] is i and x.a[0] is not vec}
    if not cand:
        return None
    fx = {}
    for x in subterms(val):
        if x.op == 'fld' and x.a[0] in cand:
            fx[x] = 0
    for seed in range(8):
        r = RI(seed, fixed=fx)
        try:
            for a, b in zip(position(val), position(old)):
                if abs(r.ev(a) - r.ev(b)) > 1e-9:
                    return None
        except Exception:
            return None
    return {x.a[0] for x in cand}

def moved(C):
    k, I = smooth_run(C)
    f = C.P.F[k]
    path = sym(f['ps'][0]['n'], 'o')
    cusp = sym(f['ps'][1]['n'], 'o')
    w = C.where(k)
    what = 'no gradient step moves the first pose, the last pose or a pose at a cusp'
    last = [e for e in rets(I)]
    seenidx = []
    try:
        for e in last:
            P = held(I, e.S)
            todo = []
            for vec, i, val, g in writes(I, P, tuple(literals(e.guard)), frozenset(), lambda t: t is path or t.op == 'fld' and t.a[0] is me):
                G = gradient_only(vec, i, val, None)
                if G is None:
                    todo.append((i, g))
                    continue
                for gr in G:
                    for v2, j, val2, g2 in writes(I, gr, (), frozenset(), zero):
                        todo.append((j, g2))
            seenidx += todo
    except Unknown as x:
        C.ob('fixed', what, w, None, str(x))
        return
    C.need(seenidx, 'the smoother moves nothing')
    done = set()
    for j, g in seenidx:
        if j in done:
            continue
        done.add(j)
        # the index is an element of a list of indices, plus a constant
        src = [x for x in subterms(j) if x.op == 'vget']
        cases = []
        if src:
            try:
                for v, h in elems(I, src[0].a[0], (), frozenset()):
                    cases.append((subst(j, {src[0]: v}), h))
            except Unknown as x:
                C.ob('fixed', what, w, None, str(x))
                continue
        else:
            cases.append((j, g))
        for v, h in cases:
            facts = tuple(h)
            for p in {x for l in list(h) + [v] for x in subterms(l) if x.op == 'phi' and ty(x) == 'i' and x.a[0][0] in I.loops}:
                facts += inv(I, None, p)
            for p in {x for l in list(h) + [v] for x in subterms(l) if x.op == 'iv'}:
                facts += (le(ZERO, p),)
            if unsat(facts):
                continue
            d = clip(v, 80)
            judge(C, 'fixed', 'no gradient step moves the first pose (index %s)' % d, w, facts, lt(ZERO, v))
            judge(C, 'fixed', 'no gradient step moves the last pose (index %s)' % d, w, facts, lt(v, sub(size(path), const(1))))
            judge(C, 'cusp', 'no gradient step moves a pose at a cusp (index %s)' % d, w, facts, not_(raw('has', cusp, v)))

def judge(C, rule, what, w, facts, f):
    if f is TRUE or entails(facts, f) or any(x is f for x in facts):
        C.ob(rule, what, w, True)
        return
    for seed in range(400):
        fx = {}
        syms = {x for l in list(facts) + [f] for x in subterms(l)}
        import random
        rnd = random.Random(seed)
        for x in sorted(syms, key=str):
            if x.op in ('phi', 'iv') and ty(x) == 'i':
                fx[x] = rnd.randrange(-3, 9)
            elif x.op == 'size':
                fx[x] = rnd.randrange(0, 12)
        for l in facts:
            if l.op == 'has':
                fx[l] = True
            elif l.op == 'not' and l.a[0].op == 'has':
                fx[l.a[0]] = False
        r = RI(seed, fixed=fx)
        try:
            if all(r.ev(x) for x in facts) and not r.ev(f):
                C.ob(rule, what, w, False, 'reached under %s' % clip_guard(facts, 300))
                return
        except Exception:
            break
    C.ob(rule, what, w, None, clip_guard(facts, 200))

def hybrid(C):
    H = 'Planner::HybridAStar'
    ks = method(C, H, 'SearchPath')
    C.need(ks, 'no HybridAStar::SearchPath')
    I = C.run(ks[0], opaque=HOP, nomut=HPURE)
    sm = [e for e in I.events if e.kind == 'call' and e.name == 'Smooth']
    C.need(sm, 'Hybrid A* never smooths')
    n = 0
    for e in rets(I):
        for v, g in arms(e.args[0]):
            g = tuple(literals(e.guard)) + g
            if unsat(g):
                continue
            path = simp_under(fld(I.read(e.S, I.deref(this, H)), 'm_path'), g)
            w = site(e)
            for p, h in arms(path):
                h = g + h
                if unsat(h):
                    continue
                mine = [s for s in sm if any(x.op == 'app' and x.a[0] == 'mut:Smooth' for x in subterms(p))] or \
                       [s for s in sm if p.op == 'app' and p.a[0] == 'call:GetPath' and any(x.op == 'fld' and x.a[1] == 'm_smoother' for x in [p.a[2]] + list(subterms(p.a[2]))[:1])]
                if not mine:
                    if p.op == 'app' and p.a[0] == 'call:Interpolate':
                        n += 1
                        C.ob('fallback', 'Hybrid A*: the path returned when it is not smoothed is the path of the search', w, True)
                    continue
                n += 1
                ok = any(entails(h, not_(lt(s.res, ZERO))) for s in mine)
                seen = any(s.res in set(subterms(l)) for s in mine for l in h)
                C.ob('adopt', 'Hybrid A*: the smoothed path is returned only under a non-negative smoother status', w,
                     True if ok else False if not seen or any(feasible(h, s.res) for s in mine) else None, 'status %s' % (clip_guard(h[-1:], 150)))
    C.need(n, 'no path returned by Hybrid A*')
    for s in sm:
        if len(s.args) < 2:
            continue
        P, K = s.args[0], s.args[1]
        site_ = site(s)
        if P.op != 'app' or P.a[0] != 'call:Interpolate':
            C.ob('cusps', 'Hybrid A*: the indices handed to the smoother are those of the cusps of the sampled path', site_, None, clip(P, 100))
            continue
        try:
            cusps(C, I, P.a[3], K, site_)
        except Unknown as x:
            C.ob('cusps', 'Hybrid A*: the indices handed to the smoother are those of the cusps of the sampled path', site_, None, str(x))

def feasible(g, r):
    """a negative outcome passes every condition that looks at it"""
    for v in (-1, -2):
        try:
            if all(RI(seed, fixed={r: v}).ev(l) for l in g if r in set(subterms(l)) for seed in range(4)):
                return True
        except Exception:
            return False
    return False

def pushes(I, v, seen):
    if v in seen:
        return
    seen.add(v)
    if v.op == 'push':
        yield v
        yield from pushes(I, v.a[0], seen)
    elif v.op == 'ite':
        yield from pushes(I, v.a[1], seen)
        yield from pushes(I, v.a[2], seen)
    elif v.op == 'phi' and v.a[0][0] in I.loops:
        L = I.loops[v.a[0][0]]
        kk = v.a[0][1:]
        if kk not in L.init or kk not in L.next:
            raise Unknown(clip(v, 80))
        yield from pushes(I, L.init[kk], seen)
        yield from pushes(I, L.next[kk], seen)
    elif v.op in ('vec', 'emp'):
        return
    else:
        raise Unknown(clip(v, 80))

def inserts(I, v, seen):
    if v in seen:
        return
    seen.add(v)
    if v.op == 'ins':
        yield v
        yield from inserts(I, v.a[0], seen)
    elif v.op == 'ite':
        yield from inserts(I, v.a[1], seen)
        yield from inserts(I, v.a[2], seen)
    elif v.op == 'phi' and v.a[0][0] in I.loops:
        L = I.loops[v.a[0][0]]
        kk = v.a[0][1:]
        if kk not in L.init or kk not in L.next:
            raise Unknown(clip(v, 80))
        yield from inserts(I, L.init[kk], seen)
        yield from inserts(I, L.next[kk], seen)
    elif v.op in ('vec', 'emp'):
        return
    else:
        raise Unknown(clip(v, 80))

def cusps(C, I, ratios, K, w):
    """each cusp ratio appended has its position in the sequence recorded"""
    ins = {x.a[1] for x in inserts(I, K, set())}
    n = 0
    for p in pushes(I, ratios, set()):
        if not any(x.op == 'app' and x.a[0] == 'call:GetCuspPointRatios' for x in subterms(p.a[1])) or p.a[1].op == 'app' and p.a[1].a[0].startswith('call:GetLength'):
            continue
        n += 1
        at = size(p.a[0])
        ok = at in ins
        near = [x for x in ins if size(p.a[0]) in set(subterms(x))]
        C.ob('cusps', 'Hybrid A*: the index of each cusp sample is handed to the smoother', w, True if ok else False if near or not ins else None,
             'sample %s, recorded %s' % (clip(at, 80), ', '.join(clip(x, 80) for x in list(ins)[:3])))
    C.need(n, 'no cusp samples')

def run(C):
    C.each(gate, moved, hybrid)
