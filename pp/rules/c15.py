"""Value-number analysis of the pose operations: the terms computed for composition, relative pose, wrapping, equality
and hashing are compared, for symbolic poses, with the group operations they must denote; the range of a wrapped heading
is bounded by an interval analysis of the wrapping loops."""
from lib import *
import math

def turns(a, b):
    """a - b is a whole number of turns (an integer-valued term times 2 pi)?"""
    d = div(sub(a, b), mul(const(2), PI))
    if d is ZERO or isnum(d) and d.a[1].denominator == 1 or ty(d) == 'i':
        return True
    dd = pdict(d)
    if dd is not None and all(c.denominator == 1 and all(ty(x) == 'i' and e > 0 for x, e in m) for m, c in dd.items()):
        return True
    loops = contains_op(d, ('iv', 'phi', 'unk', 'uninit'))
    bad = 0
    ok = 0
    for s in range(0, 80):
        r = RI(s)
        try:
            v = r.ev(d)
        except Exception:
            continue
        if isinstance(v, (int, float)) and v == v and abs(v) < 1e12:
            ok += 1
            if abs(v - round(v)) > 1e-6:
                bad += 1
    if not ok:
        return None
    if bad:
        if contains_op(d, ('phi', 'unk', 'uninit')):
            return None
        return False
    return True

def bounds(I, guard, t, depth=0, lits=()):
    """interval (lo, hi) of t at the end of the analysed function, or None when not understood"""
    lo, hi = -math.inf, math.inf
    if depth > 8:
        return lo, hi
    d = pdict(t)
    if d is None:
        d = {((t, 1),): 1}
    # constant part
    num = 0.0
    for m, c in d.items():
        v = float(c)
        for a, e in m:
            if a is PI:
                v *= math.pi ** e
            else:
                v = None
                break
        if v is None:
            num = None
            break
        num += v
    if num is not None:
        return num, num
    # exit facts of the guard: c - t >= 0, t - c >= 0
    for l in literals(guard):
        if l.op in ('pos', 'nneg'):
            for sg in (1, -1):
                r = sub(l.a[0], mul(const(sg), t))     # l: r + sg*t >= 0
                rb = constval(r)
                if rb is not None:
                    if sg == 1:
                        lo = max(lo, -rb)
                    else:
                        hi = min(hi, rb)
    # loops, innermost last
    ivs = [x for x in subterms(t) if x.op == 'iv']
    for x in ivs:
        L = I.loops.get(x.a[0])
        if L is None:
            continue
        step = coeff(t, x)
        if step is None:
            continue
        if any(loop_uses(I, y, x) for y in ivs if y is not x):
            continue                                     # another loop starts from this one: bounded through that loop
        init = subst(t, {x: ZERO})
        blo, bhi = bounds(I, tuple(simp_under(g, lits) for g in (L.pre.guard if L.pre is not None else ())) + tuple(lits), init, depth + 1, lits)
        c = simp_under(L.cond, lits) if L.cond is not None and lits else L.cond
        if c is None or c.op not in ('pos', 'nneg'):
            continue
        for sg in (1, -1):
            r = sub(c.a[0], mul(const(sg), t))
            rb = constval(r)
            if rb is None:
                continue
            # running while rb + sg*t > 0
            if sg == -1 and step > 0:                    # t < rb, t grows: t < rb + step or t is the initial value
                hi = min(hi, max(bhi, rb + step)); lo = max(lo, blo)
                lo = max(lo, rb)
            elif sg == 1 and step < 0:                   # t > -rb, t shrinks
                lo = max(lo, min(blo, -rb + step)); hi = min(hi, bhi)
                hi = min(hi, -rb)
            else:
                return -math.inf, math.inf
    return lo, hi

def loop_uses(I, y, x):
    L = I.loops.get(y.a[0])
    return L is not None and any(contains_op2(v, x) for v in L.init.values())
def contains_op2(t, x):
    return any(s is x for s in subterms(t))
def constval(r):
    d = pdict(r)
    if d is None:
        if isnum(r):
            return float(r.a[1])
        return math.pi if r is PI else None
    v = 0.0
    for m, c in d.items():
        w = float(c)
        for a, e in m:
            if a is not PI:
                return None
            w *= math.pi ** e
        v += w
    return v
def coeff(t, x):
    s = sub(subst(t, {x: ONE}), subst(t, {x: ZERO}))
    return constval(s)

def wrapped(I, S, t):
    """heading t lies within half a turn of zero on every return: True / False / None"""
    if not contains_op(t, ('iv', 'phi', 'unk', 'uninit')):
        syms = [x for x in subterms(t) if x.op in ('sym', 'fld') and ty(x) == 'r']
        ok = 0
        for s in range(0, 400, 2):
            r = RI(s, boxes={x: (-25.0, 25.0) for x in syms})
            try:
                v = r.ev(t)
            except Exception:
                continue
            if isinstance(v, (int, float)) and v == v:
                ok += 1
                if abs(v) > math.pi + 1e-6:
                    return False
        return True if ok > 20 else None
    if contains_op(t, ('phi', 'unk', 'uninit')):
        return None
    res = True
    for lits, u in split(t, ()):
        lo, hi = bounds(I, tuple(simp_under(g, lits) for g in S.guard) + lits, u, lits=lits)
        if lo >= -math.pi - 1e-9 and hi <= math.pi + 1e-9:
            continue
        cs = [simp_under(L.cond, lits) for L in I.loops.values() if L.cond is not None]
        if len(cs) == len(I.loops) <= 4 and all(c.op in ('pos', 'nneg') for c in cs):
            return False
        res = None
    return res

def split(t, lits, depth=3):
    c = next((x.a[0] for x in subterms(t) if x.op == 'ite' and not contains_op(x.a[0], ('ite',))), None)
    if c is None or depth == 0:
        return [(lits, t)]
    return [y for l in (c, not_(c)) for y in split(simp_under(t, lits + (l,)), lits + (l,), depth - 1)]

def check_theta(C, I, rule, what, where, th, want):
    C.ob(rule, what + ' changes the heading only by whole turns', where, turns(th, want), clip(th))
    C.ob(rule, what + ' leaves the heading within half a turn of zero', where, wrapped(I, I.S, th), clip(th))

def run(C):
    th = lambda p: fld(p, 'theta', 'r')
    ps = lambda p, i: fld(fld(p, 'position'), str(i), 'r')
    # wrapping
    k = C.func(r'Planner::Pose2<double>::WrapTheta|Planner::Pose2::WrapTheta', has='Pose2<double>')
    I = C.run(k)
    check_theta(C, I, 'wrap', 'WrapTheta', C.where(k), I.ret, fld(raw('obj', sym('this', 'p')), 'theta', 'r') if False else th(objof(I)))
    # constructors
    n = 0
    for k, f in sorted(C.P.F.items()):
        if f.get('kind') == 'ctor' and f.get('cls') == 'Planner::Pose2<double>' and len(f['ps']) in (2, 3) and f.get('body'):
            I = C.run(k)
            o = I.read(I.S, I.deref(sym('this', 'p'), 'Planner::Pose2<double>'))
            w = C.where(k)
            n += 1
            nm = [p['n'] for p in f['ps']]
            check_theta(C, I, 'ctor', 'constructing a pose', w, th(o), sym(nm[-1], 'r'))
            for i in (0, 1):
                want = sym(nm[i], 'r') if len(nm) == 3 else fld(sym(nm[0], 'o'), str(i), 'r')
                C.same('ctor', 'constructed position component %d' % i, w, ps(o, i), want)
    C.need(n >= 2, 'Pose2 constructors')
    # composition
    kp = C.func(r'Planner::operator\+', has='operator+<double>(const Planner::Pose2')
    km = C.func(r'Planner::operator-', has='operator-<double>(const Planner::Pose2')
    names = lambda k: [p['n'] or 'arg%d' % i for i, p in enumerate(C.P.F[k]['ps'])]
    I = C.run(kp)
    l, r = [sym(x, 'o') for x in names(kp)]
    c, s = fn1('cos', th(l)), fn1('sin', th(l))
    w = C.where(kp)
    C.same('compose', 'x of a + b', w, ps(I.ret, 0), add(ps(l, 0), mul(c, ps(r, 0)), neg(mul(s, ps(r, 1)))))
    C.same('compose', 'y of a + b', w, ps(I.ret, 1), add(ps(l, 1), mul(s, ps(r, 0)), mul(c, ps(r, 1))))
    check_theta(C, I, 'compose', 'a + b', w, th(I.ret), add(th(l), th(r)))
    Im = C.run(km)
    l, r = [sym(x, 'o') for x in names(km)]
    w = C.where(km)
    check_theta(C, Im, 'relative', 'b - a', w, th(Im.ret), sub(th(l), th(r)))
    # a + (b - a) == b : compose the two summaries
    comp = lambda t: subst(t, {sym(names(kp)[0], 'o'): r, sym(names(kp)[1], 'o'): Im.ret})
    rr = st('Pose2', None, {'position': fld(I.ret, 'position'), 'theta': th(I.ret)})
    for i, nm in ((0, 'x'), (1, 'y')):
        got = comp(ps(I.ret, i))
        C.same('inverse', '%s of a + (b - a)' % nm, w, got, ps(l, i))
    C.ob('inverse', 'heading of a + (b - a) is that of b up to whole turns', w, turns(comp(th(I.ret)), th(l)))
    # equality and hashing
    ke = [k for k in C.func(r'Planner::operator==', many=True) if 'Pose2<double>' in k]
    C.need(ke, 'operator== on Pose2')
    I = C.run(ke[0])
    a, b = [sym(x, 'o') for x in names(ke[0])]
    C.same('equal', 'poses compare equal exactly when position and heading agree', C.where(ke[0]), I.ret,
           and_(eq(ps(a, 0), ps(b, 0)), eq(ps(a, 1), ps(b, 1)), eq(th(a), th(b))))
    for T in ('Planner::Pose2<double>', 'Eigen::Matrix<double, 2, 1, 0, 2, 1>', 'Eigen::Matrix<int, 2, 1, 0, 2, 1>'):
        hs = [k for k, f in C.P.F.items() if f['n'] == 'operator()' and (f.get('cls') or '').startswith('std::hash<') and T in f['cls'] and f.get('body')]
        es = [k for k, f in C.P.F.items() if f['n'] == 'operator()' and (f.get('cls') or '').startswith('std::equal_to<') and T in f['cls'] and f.get('body')]
        if not hs or not es:
            C.need('int' in T, 'hash / equal_to of ' + T)
            continue
        H, E = C.run(hs[0], opaque=('WrapTheta',)), C.run(es[0], opaque=('WrapTheta',))
        a, b = [sym(x, 'o') for x in names(es[0])]
        hv = sym(names(hs[0])[0], 'o')
        eqs = literals((E.ret,))
        feats = []
        und = False
        for q in eqs:
            if q.op == 'zero':
                x = subst(q.a[0], {b: raw('zerobase')})
                fa = [y for y in subterms(q.a[0]) if y.op in ('fld', 'app') and contains_op2(y, a) and not contains_op2(y, b) and ty(y) in ('r', 'i')]
                fb = {subst(y, {b: a}) for y in subterms(q.a[0]) if y.op in ('fld', 'app') and contains_op2(y, b) and ty(y) in ('r', 'i')}
                feats.extend(y for y in fa if y in fb)
            elif q.op == 'eq':
                x, y = q.a
                if subst(x, {a: b}) is subst(y, {a: b}):
                    feats.append(x if contains_op2(x, a) else y)
                else:
                    und = True
            else:
                und = True
        feats = sorted(set(feats), key=tsize, reverse=True)
        m = {subst(f, {a: hv}): sym('feature%d' % i, ty(f)) for i, f in enumerate(feats)}
        rest = subst(H.ret, m)
        leak = contains_op2(rest, hv)
        ok = (not leak) if not (und and leak) else None
        C.ob('hash', 'the hash depends only on what equality compares', C.where(hs[0]), ok, 'hash %s; equality compares %s' % (clip(H.ret), [str(f) for f in feats]))

def objof(I):
    return raw('obj', sym('this', 'p')) if any(True for _ in ()) else I.read(I.S, I.deref(sym('this', 'p'), 'Planner::Pose2<double>'))
