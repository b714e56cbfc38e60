"""Value-number analysis of every kind of path. Each kind is constructed on a symbolic object and then interpolated and truncated on
the resulting state; the end pose, length and poses are compared with the closed form they must denote (constructor, truncation and
interpolation chained in order). Reeds-Shepp paths are built motion by motion (every steering and direction occurs) and compared with
driving those motions in order; composite paths are built from one to three symbolic pieces and the segment, ratio, end, length and
cusp places are compared piecewise for every segment the ratio can fall in."""
from lib import *

this = sym('this', 'p')
Q, RT = sym('pos:q', 'r'), sym('pos:r', 'r')
BOX = {Q: (0.02, 0.98), RT: (0.05, 0.95)}

def ctor(C, cls, n):
    ks = [k for k, f in C.P.F.items() if f.get('kind') == 'ctor' and f.get('cls') == cls and len(f['ps']) == n and 'const %s &' % cls not in k and '%s &&' % cls not in k]
    return C.need(ks, '%s constructor with %d parameters' % (cls, n))[0]

def comps(v, kind):
    if kind == 'pt':
        return [('x', fld(v, '0', 'r')), ('y', fld(v, '1', 'r'))]
    p, th = fld(v, 'position'), fld(v, 'theta', 'r')
    return [('x', fld(p, '0', 'r')), ('y', fld(p, '1', 'r')), ('cos(heading)', fn1('cos', th)), ('sin(heading)', fn1('sin', th))]

def same_state(C, rule, what, w, got, want, kind, box, guard=()):
    g, h = comps(got, kind), comps(want, kind)
    v = num_same([(a[1], b[1]) for a, b in zip(g, h)], box, guard=guard)
    d = ''
    if v is not True:
        for a, b in zip(g, h):
            if num_same([(a[1], b[1])], box, guard=guard) is not True:
                d = '%s is %s; required %s' % (a[0], clip(a[1], 220), clip(b[1], 220)); break
    C.ob(rule, what, w, v, d)

def generic(C, nm, kind, S, cls, wi, wt, ki, kt, box, tag, wctor, ref=None, cuts=None, split=lambda q, m: [((), '')], nm_=1):
    """end points and truncation of a path in state S"""
    def at(S, r, g=()):
        return C.run(ki, args={0: r}, S=S.fork(*g), thiscls=cls).ret
    def obj(S):
        J = C.interp()
        return J.read(S, J.deref(this, cls))
    o = obj(S)
    ini, fin, ln = fld(o, 'm_init'), fld(o, 'm_final'), fld(o, 'm_length', 'r')
    same_state(C, 'start', nm + ': ratio zero gives the initial state' + tag, wi, at(S, ZERO), ini, kind, box)
    same_state(C, 'end', nm + ': ratio one gives the final state' + tag, wi, at(S, ONE), fin, kind, box)
    if ref:
        for sg, stag in split(Q, nm_):
            same_state(C, 'shape', nm + ': the state at a ratio is reached by driving that fraction of the motions' + tag + stag, wi, at(S, Q, sg), ref(Q), kind, box, guard=sg)
    T2s = []
    for cg, cbox, ctag, cj in (cuts or [((), box, '', 0)]):
        tg = tag + ctag
        T2 = C.run(kt, args={0: RT}, S=S.fork(*cg), thiscls=cls).S
        T2s.append((T2, cg, cbox, ctag))
        p = obj(T2)
        old = C.run(ki, args={0: RT}, S=S.fork(*cg), thiscls=cls).ret
        same_state(C, 'truncate', nm + ': truncation ends at the old state at the ratio' + tg, wt, fld(p, 'm_final'), old, kind, cbox, guard=cg)
        same_state(C, 'truncate', nm + ': truncation keeps the initial state' + tg, wt, fld(p, 'm_init'), ini, kind, cbox, guard=cg)
        C.ob('truncate', nm + ': truncation scales the length' + tg, wt, num_same([(fld(p, 'm_length', 'r'), mul(ln, RT))], cbox, guard=cg), clip(fld(p, 'm_length', 'r'), 200))
        for sg, stag in split(mul(Q, RT), cj + 1):
            same_state(C, 'truncate', nm + ': after truncation the state at q is the old state at q times r' + tg + stag, wt, at(T2, Q, sg), at(S, mul(Q, RT), sg), kind, cbox, guard=cg + sg)
        same_state(C, 'truncate', nm + ': a truncated path ends in its final state' + tg, wt, at(T2, ONE), fld(p, 'm_final'), kind, cbox, guard=cg)
    if not cuts:
        # a second truncation composes
        R2 = sym('pos:r2', 'r')
        b2 = dict(box); b2[R2] = (0.1, 0.9)
        T3 = C.run(kt, args={0: R2}, S=T2.fork(), thiscls=cls).S
        same_state(C, 'truncate', nm + ': truncating twice is truncating at the product' + tag, wt, at(T3, Q), at(S, mul(Q, RT, R2)), kind, b2)
    # truncating at one changes nothing
    T1 = C.run(kt, args={0: ONE}, S=S.fork(), thiscls=cls).S
    for sg, stag in split(Q, nm_):
        same_state(C, 'truncate', nm + ': truncating at one changes nothing' + tag + stag, wt, at(T1, Q, sg), at(S, Q, sg), kind, box, guard=sg)
    return T2s

def simple(C):
    for cls, kind in (('Planner::PathR2', 'pt'), ('Planner::PathSE2', 'pose')):
        nm = cls.split('::')[1]
        kc = ctor(C, cls, 2)
        ki, kt = C.func(cls + '::Interpolate', 1), C.func(cls + '::Truncate', 1)
        a, b = sym('from0', 'o'), sym('to0', 'o')
        S = C.run(kc, args={0: a, 1: b}, thiscls=cls).S
        J = C.interp()
        o = J.read(S, J.deref(this, cls))
        w = C.where(kc)
        same_state(C, 'ends', nm + ': starts at the given start', w, fld(o, 'm_init'), a, kind, BOX)
        same_state(C, 'ends', nm + ': ends at the given end', w, fld(o, 'm_final'), b, kind, BOX)
        pa, pb = (a, b) if kind == 'pt' else (fld(a, 'position'), fld(b, 'position'))
        d = [sub(fld(pb, i, 'r'), fld(pa, i, 'r')) for i in '01']
        C.ob('length', nm + ': the length is the distance of its ends', w, num_same([(fld(o, 'm_length', 'r'), fn1('sqrt', add(mul(d[0], d[0]), mul(d[1], d[1]))))], BOX), clip(fld(o, 'm_length', 'r')))
        generic(C, nm, kind, S, cls, C.where(ki), C.where(kt), ki, kt, BOX, '', w)
    # connections
    for cls, kind in (('Planner::PathConnectionR2', 'pt'), ('Planner::PathConnectionSE2', 'pose'), ('Planner::PathConnectionReedsShepp', 'pose')):
        k = C.func(cls + '::Connect', 2)
        a, b = sym('from0', 'o'), sym('to0', 'o')
        I = C.run(k, args={0: a, 1: b}, opaque=('GetOptimalPath', 'Interpolate'))
        rp = I.ret
        po = I.read(I.S, I.deref(rp, rp.a[2])) if rp.op == 'alloc' else None
        w = C.where(k)
        if po is None:
            C.ob('connect', cls + ' returns a new path', w, None, clip(rp)); continue
        same_state(C, 'connect', cls + ': the path starts at the first argument', w, fld(po, 'm_init'), a, kind, BOX)
        if not cls.endswith('Shepp'):
            same_state(C, 'connect', cls + ': the path ends at the second argument', w, fld(po, 'm_final'), b, kind, BOX)
        else:
            g = [x for t in (fld(po, 'm_length', 'r'), fld(po, 'm_pathSegment')) for x in subterms(t) if x.op == 'app' and x.a[0] == 'call:GetOptimalPath']
            ok = None
            if g:
                aa = [x for x in g[0].a[2:]]
                ok = a in aa and b in aa and aa.index(a) < aa.index(b)
            C.ob('connect', cls + ': the Reeds-Shepp problem is solved from the first to the second argument', w, ok, clip(g[0]) if g else '')

def steer(C):
    cls = 'Planner::PathConstantSteer'
    kc = ctor(C, cls, 5)
    ki, kt = C.func(cls + '::Interpolate', 1), C.func(cls + '::Truncate', 1)
    en = enum(C, 'Direction')
    ln, st_ = sym('pos:len', 'r'), sym('steer0', 'r')
    frm = sym('from0', 'o')
    names = [p['n'] for p in C.P.F[kc]['ps']]
    for dn in ('Forward', 'Backward'):
        for sv, sn in ((st_, 'curved'), (ZERO, 'straight')):
            I = C.run(kc, args={1: frm, 2: sv, 3: ln, 4: const(en[dn])}, thiscls=cls)
            S = I.S
            J = C.interp()
            o = J.read(S, J.deref(this, cls))
            mdl = sym(names[0], 'p')
            box = dict(BOX); box[ln] = (0.5, 8.0); box[st_] = (-1.0, 1.0)
            for x in subterms(fld(fld(o, 'm_final'), 'position')):
                if x.op == 'fld' and ty(x) == 'r' and any(y is mdl for y in subterms(x)):
                    box[x] = (1.5, 3.5) if 'rear' not in x.a[1].lower() else (0.0, 1.2)
            w = C.where(kc)
            tag = ' (%s %s)' % (sn, dn.lower())
            same_state(C, 'ends', 'PathConstantSteer: starts at the given pose' + tag, w, fld(o, 'm_init'), frm, 'pose', box)
            C.same('length', 'PathConstantSteer: has the given length' + tag, w, fld(o, 'm_length', 'r'), ln)
            generic(C, 'PathConstantSteer', 'pose', S, cls, C.where(ki), C.where(kt), ki, kt, box, tag, w)
    kd = C.func(cls + '::GetDirection', 1)
    I = C.run(kd, args={0: Q}, S=S.fork(), thiscls=cls)
    C.same('direction', 'PathConstantSteer: drives in the given direction', C.where(kd), I.ret, const(en['Backward']))

STEER, DIRS = ('Left', 'Straight', 'Right'), ('Forward', 'Backward')
WORDS = [[('Left', 'Forward')], [('Right', 'Backward')], [('Straight', 'Backward')],
         [('Left', 'Forward'), ('Straight', 'Forward'), ('Right', 'Backward')],
         [('Right', 'Forward'), ('Left', 'Backward'), ('Straight', 'Backward'), ('Right', 'Forward')],
         [('Left', 'Backward'), ('Right', 'Forward'), ('Straight', 'Forward'), ('Left', 'Forward'), ('Right', 'Backward')]]

def drive(frm, R, word, ls, dist):
    """pose after driving `dist` (normalised) along the motions"""
    p = fld(frm, 'position')
    x, y, th = fld(p, '0', 'r'), fld(p, '1', 'r'), fld(frm, 'theta', 'r')
    cum = ZERO
    for (s, d), l in zip(word, ls):
        a = minmax('max', minmax('min', sub(dist, cum), l), ZERO)
        if d == 'Backward':
            a = neg(a)
        if s == 'Straight':
            x, y = add(x, mul(R, a, fn1('cos', th))), add(y, mul(R, a, fn1('sin', th)))
        else:
            k = ONE if s == 'Left' else const(-1)
            t2 = add(th, mul(k, a))
            x = add(x, mul(k, R, sub(fn1('sin', t2), fn1('sin', th))))
            y = sub(y, mul(k, R, sub(fn1('cos', t2), fn1('cos', th))))
            th = t2
        cum = add(cum, l)
    return st('Planner::Pose2<double>', None, {'position': st('V2', None, {'0': x, '1': y}), 'theta': th})

def numset(I, t, want, box, guard=()):
    """compare a set value with the expected [(cond, key)] in random interpretations"""
    it = setitems(I, t)
    if it is None or any(L is not None for _, _, L in it):
        return None, clip(t)
    vague = any(ops_of(k) & set(VAGUE + LOOPY) or any(ops_of(c) & set(VAGUE + LOOPY) for c in cs) for cs, k, _ in it)
    ok = 0
    for s in range(0, 100, 2):
        r = RI(s, boxes=box)
        try:
            if any(not r.ev(g) for g in guard):
                continue
            got = {round(float(r.ev(k)), 5) for cs, k, _ in it if all(r.ev(c) for c in cs)}
            exp = {round(float(r.ev(k)), 5) for c, k in want if r.ev(c)}
        except (TypeError, ValueError, OverflowError):
            continue
        if not close_sets(got, exp):
            return (None if vague else False), 'found %s; required %s' % (sorted(got), sorted(exp))
        ok += 1
    return (True if ok > 5 else None), ''

def close_sets(a, b):
    a, b = sorted(a), sorted(b)
    return len(a) == len(b) and all(abs(x - y) < 1e-4 for x, y in zip(a, b))

def reeds(C):
    cls, seg = 'Planner::PathReedsShepp', 'Planner::ReedsShepp::PathSegment'
    ks, am = ctor(C, seg, 0), C.func(seg + '::AddMotion', 3)
    kc = ctor(C, cls, 3)
    ki, kt = C.func(cls + '::Interpolate', 1), C.func(cls + '::Truncate', 1)
    kd, ku = C.func(cls + '::GetDirection', 1), C.func(cls + '::GetCuspPointRatios', 0)
    se, de = enum(C, 'Steer'), enum(C, 'Direction')
    R = sym('pos:R', 'r')
    frm = sym('from0', 'o')
    words = [x for x in WORDS if len(x) < 5 or C.tier == 'thorough']
    C.count('Reeds-Shepp words', len(words))
    for word in words:
        sp = raw('alloc', 'seg', (), seg)
        S = C.run(ks, this=sp, thiscls=seg).S
        ls = [sym('pos:l%d' % i, 'r') for i in range(len(word))]
        for (s, d), l in zip(word, ls):
            S = C.run(am, this=sp, thiscls=seg, args={0: const(se[s]), 1: const(de[d]), 2: l}, S=S).S
        J = C.interp()
        so = J.read(S, J.deref(sp, seg))
        tag = ' (' + ' '.join(s[0] + ('+' if d == 'Forward' else '-') for s, d in word) + ')'
        w = C.where(kc)
        S = C.run(kc, args={0: frm, 1: so, 2: R}, S=S, thiscls=cls).S
        o = J.read(S, J.deref(this, cls))
        tot = add(*ls)
        box = dict(BOX); box[R] = (0.5, 4.0)
        for l in ls:
            box[l] = (0.2, 1.5)
        same_state(C, 'ends', 'PathReedsShepp: starts at the given pose' + tag, w, fld(o, 'm_init'), frm, 'pose', box)
        C.ob('length', 'PathReedsShepp: the length is the sum of its motions times the radius' + tag, w, num_same([(fld(o, 'm_length', 'r'), mul(tot, R))], box), clip(fld(o, 'm_length', 'r')))
        same_state(C, 'ends', 'PathReedsShepp: ends where its motions lead' + tag, w, fld(o, 'm_final'), drive(frm, R, word, ls, tot), 'pose', box)
        cum = [add(ZERO, *ls[:k]) for k in range(len(ls) + 1)]
        def within(d, j):
            """facts that the (normalised) distance d lies in motion j, in the scalings the code divides by"""
            fs = []
            for k in range(len(ls)):
                lo, hi = ((cum[k + 1], d) if k < j else (d, cum[k + 1]))
                for sc in (ONE, R, inv(ls[k])):
                    fs.append(lt(mul(lo, sc), mul(hi, sc)))
                if k == j:
                    fs += [lt(mul(cum[k], sc), mul(d, sc)) for sc in (ONE, R, inv(ls[k]))]
            return tuple(x for x in fs if x is not TRUE)
        cuts = []
        for j in range(len(word)):
            bx = dict(box)
            bx[RT] = ((j + 0.02) / len(word), (j + 0.98) / len(word))
            cuts.append((within(mul(RT, tot), j), bx, ', cut in motion %d' % (j + 1), j))
        split = lambda d, m: [(within(d, i), ', in motion %d' % (i + 1)) for i in range(m)]
        T2s = generic(C, 'PathReedsShepp', 'pose', S, cls, C.where(ki), C.where(kt), ki, kt, box, tag, w, ref=lambda q: drive(frm, R, word, ls, mul(q, tot)), cuts=cuts, split=lambda q, m: split(mul(q, tot), m), nm_=len(word))
        # direction and cusps, before and after truncation
        for SS, sc, nm, cg, bx in [(S, ONE, '', (), box)] + [(x[0], RT, x[3], x[1], x[2]) for x in T2s]:
            I = C.run(kd, args={0: Q}, S=SS.fork(), thiscls=cls)
            want = const(de[word[-1][1]])
            cum = ZERO
            cums = []
            for l in ls:
                cum = add(cum, l); cums.append(cum)
            for (s, d), c in reversed(list(zip(word[:-1], cums))):
                want = ite(lt(mul(Q, sc, tot), c), const(de[d]), want)
            C.ob('direction', 'PathReedsShepp: the direction at a ratio is that of the motion there' + tag + nm, C.where(kd), num_same([(I.ret, want)], bx, guard=cg), clip(I.ret))
            I = C.run(ku, S=SS.fork(), thiscls=cls)
            exp = [(lt(c, mul(sc, tot)), div(c, mul(sc, tot))) for (a, b, c) in zip(word, word[1:], cums) if a[1] != b[1]]
            v, d = numset(I, I.ret, exp, bx, guard=cg)
            C.ob('cusps', 'PathReedsShepp: cusps are reported where the direction changes' + tag + nm, C.where(ku), v, d)

def contract(t):
    """replace results of truncating a piece by what truncation of a piece is required to do"""
    memo = {}
    def go(x):
        if x in memo:
            return memo[x]
        r = None
        if x.op == 'fld' and x.a[0].op == 'app' and x.a[0].a[0] == 'mut:Truncate':
            m = x.a[0]
            o, q = go(m.a[2]), go(m.a[3])
            if x.a[1] == 'm_length':
                r = mul(fld(o, 'm_length', 'r'), q)
            elif x.a[1] == 'm_final':
                r = app('call:Interpolate', o, q, ty='o')
            elif x.a[1] == 'm_init':
                r = fld(o, 'm_init')
        elif x.op == 'app' and x.a[0] in ('call:Interpolate', 'call:GetDirection') and x.a[2].op == 'app' and x.a[2].a[0] == 'mut:Truncate':
            m = x.a[2]
            o, q = go(m.a[2]), go(m.a[3])
            r = app(x.a[0], o, mul(go(x.a[3]), q), ty=ty(x))
        if r is None:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)

def endpoints(t):
    """pieces are paths: their state at zero / one is their initial / final state"""
    memo = {}
    def go(x):
        if x in memo:
            return memo[x]
        if x.op == 'app' and x.a[0] == 'call:Interpolate' and x.a[3] is ZERO:
            r = fld(go(x.a[2]), 'm_init')
        elif x.op == 'app' and x.a[0] == 'call:Interpolate' and x.a[3] is ONE:
            r = fld(go(x.a[2]), 'm_final')
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)

def composite(C):
    cls = 'Planner::PathSE2CompositeNonHolonomic'
    base = r'Planner::PathComposite<.*NonHolonomic.*>::'
    kc = ctor(C, cls, 0)
    kp, ki, kt = C.func(base + 'PushBack', 1), C.func(base + 'Interpolate', 1), C.func(base + 'Truncate', 1)
    kd, ku = C.func(cls + '::GetDirection', 1), C.func(cls + '::GetCuspPointRatios', 0)
    q = sym('pos:q', 'r')
    pcls = 'Planner::PathNonHolonomic<Planner::Pose2<double>>'
    for n in (1, 2, 3):
        S = C.run(kc, thiscls=cls).S
        J = C.interp()
        ps = [raw('alloc', 'piece%d' % i, (), 'piece') for i in range(n)]
        ls = [sym('pos:len%d' % i, 'r') for i in range(n)]
        for p, l in zip(ps, ls):
            J.write(S, J.deref(p, pcls).f('m_length', 'r', 'double'), l)
        for p in ps:
            S = C.run(kp, args={0: p}, S=S, thiscls=cls).S
        po = [J.read(S, J.deref(p, pcls)) for p in ps]
        o = J.read(S, J.deref(this, cls))
        tot = add(*ls)
        w = C.where(kp)
        tag = ' (%d pieces)' % n
        box = {q: (0.01, 0.99)}
        for l in ls:
            box[l] = (0.5, 2.0)
        same_state(C, 'composite', 'starts where its first piece starts' + tag, w, fld(o, 'm_init'), fld(po[0], 'm_init'), 'pose', box)
        same_state(C, 'composite', 'ends where its last piece ends' + tag, w, fld(o, 'm_final'), fld(po[-1], 'm_final'), 'pose', box)
        C.ob('composite', 'is as long as its pieces together' + tag, w, num_same([(fld(o, 'm_length', 'r'), tot)], box), clip(fld(o, 'm_length', 'r')))
        def pieceat(j, r, name='call:Interpolate', tyy='o'):
            return app(name, po[j], r, ty=tyy)
        cum = [add(ZERO, *ls[:j]) for j in range(n + 1)]
        def opq(*names):
            return names
        for j in range(n):
            g = tuple(x for x in [le(cum[k], mul(q, tot)) for k in range(j + 1)] + [lt(mul(q, tot), cum[k]) for k in range(j + 1, n + 1)] if x is not TRUE)
            S2 = S.fork(*g)
            bx = dict(box)
            bx[q] = ((j + 0.02) / n, (j + 0.98) / n)
            r = div(sub(mul(q, tot), cum[j]), ls[j])
            tg = '%s, ratio in piece %d' % (tag, j + 1)
            I = C.run(ki, args={0: q}, S=S2.fork(), thiscls=cls, opaque=('Interpolate',))
            same_state(C, 'composite', 'the state at a ratio is the state of the piece there' + tg, C.where(ki), I.ret, pieceat(j, r), 'pose', bx, guard=g)
            I = C.run(kd, args={0: q}, S=S2.fork(), thiscls=cls, opaque=('GetDirection',))
            C.ob('composite', 'the direction at a ratio is that of the piece there' + tg, C.where(kd), num_same([(I.ret, pieceat(j, r, 'call:GetDirection', ty(I.ret)))], bx, guard=g), clip(I.ret))
            I = C.run(kt, args={0: q}, S=S2.fork(), thiscls=cls, opaque=('Truncate', 'Interpolate'))
            p = I.read(I.S, I.deref(this, cls))
            wt = C.where(kt)
            same_state(C, 'composite', 'truncation ends at the old state at the ratio' + tg, wt, contract(fld(p, 'm_final')), pieceat(j, r), 'pose', bx, guard=g)
            same_state(C, 'composite', 'truncation keeps the initial state' + tg, wt, contract(fld(p, 'm_init')), fld(po[0], 'm_init'), 'pose', bx, guard=g)
            C.ob('composite', 'truncation scales the length' + tg, wt, num_same([(contract(fld(p, 'm_length', 'r')), mul(q, tot))], bx, guard=g), clip(contract(fld(p, 'm_length', 'r'))))
            # interpolate the truncated path, in each of its pieces (pieces fulfil the contract of Truncate)
            T = I.S.fork()
            for fl in ('m_length', 'm_paths', 'm_final', 'm_init'):
                tcc = 'r' if fl == 'm_length' else 'o'
                J.write(T, J.deref(this, cls).f(fl, tcc, None), contract(fld(p, fl, tcc)))
            s = sym('pos:s', 'r')
            ends = cum[:j + 1] + [mul(q, tot)]
            for i in range(j + 1):
                pos_ = mul(s, q, tot)
                g2 = tuple(x for x in [le(ends[k], pos_) for k in range(i + 1)] + [lt(pos_, ends[k]) for k in range(i + 1, j + 2)] if x is not TRUE)
                bx2 = dict(bx)
                bx2[s] = (0.0, 1.0)
                I2 = C.run(ki, args={0: s}, S=T.fork(*g2), thiscls=cls, opaque=('Interpolate',))
                rr = div(sub(pos_, cum[i]), ls[i])
                same_state(C, 'composite', 'after truncation the states are the old ones%s, then in piece %d' % (tg, i + 1), wt, contract(I2.ret), pieceat(i, rr), 'pose', bx2, guard=g + g2)
        # end points
        I = C.run(ki, args={0: ONE}, S=S.fork(), thiscls=cls, opaque=('Interpolate',))
        same_state(C, 'composite', 'ratio one gives the final state' + tag, C.where(ki), endpoints(I.ret), fld(po[-1], 'm_final'), 'pose', box)
        I = C.run(ki, args={0: ZERO}, S=S.fork(), thiscls=cls, opaque=('Interpolate',))
        same_state(C, 'composite', 'ratio zero gives the initial state' + tag, C.where(ki), endpoints(I.ret), fld(po[0], 'm_init'), 'pose', box)
        I = C.run(kd, args={0: ONE}, S=S.fork(), thiscls=cls, opaque=('GetDirection',))
        C.ob('composite', 'the direction at the end is that of the last piece' + tag, C.where(kd), num_same([(I.ret, pieceat(n - 1, ONE, 'call:GetDirection', ty(I.ret)))], box), clip(I.ret))
        I = C.run(kt, args={0: ONE}, S=S.fork(), thiscls=cls, opaque=('Truncate', 'Interpolate'))
        p = I.read(I.S, I.deref(this, cls))
        C.ob('composite', 'truncating at one keeps the length' + tag, C.where(kt), num_same([(contract(fld(p, 'm_length', 'r')), tot)], box), '')
        same_state(C, 'composite', 'truncating at one keeps the final state' + tag, C.where(kt), endpoints(contract(fld(p, 'm_final'))), fld(po[-1], 'm_final'), 'pose', box)
        # cusps
        I = C.run(ku, S=S.fork(), thiscls=cls, opaque=('GetDirection', 'GetCuspPointRatios'))
        it = setitems(I, I.ret)
        wu = C.where(ku)
        if it is None:
            C.ob('composite', 'cusps are understood' + tag, wu, None, clip(I.ret)); continue
        def D(j, r):
            return pieceat(j, r, 'call:GetDirection', 'i')
        between = [(c, k) for c, k, L in it if L is None]
        inner = [(c, k, L) for c, k, L in it if L is not None]
        ok, det = True, ''
        good = 0
        for sd in range(0, 120):
            r = RI(sd, boxes=box)
            try:
                exp = {round(r.ev(div(cum[j], tot)), 5) for j in range(1, n) if r.ev(not_(eq(D(j, ZERO), D(j - 1, ONE))))}
                got = {round(float(r.ev(k)), 5) for c, k in between if all(r.ev(x) for x in c)}
            except (TypeError, ValueError, OverflowError):
                continue
            good += 1
            if not close_sets(exp, got):
                ok, det = False, 'found %s; required %s' % (sorted(got), sorted(exp)); break
        C.ob('composite', 'a change of direction between pieces is a cusp at the place where they join' + tag, wu, ok if good > 10 or not ok else None, det)
        # cusps of the pieces, shifted and scaled
        seen = set()
        for c, k, L in inner:
            el = [x for x in subterms(k) if x.op == 'app' and x.a[0] == 'elem' and x.a[2].op == 'app' and x.a[2].a[0] == 'call:GetCuspPointRatios']
            src = [j for j in range(n) for x in el if any(y is ps[j] or y is po[j] for y in subterms(x.a[2]))]
            if len(set(src)) != 1 or c:
                C.ob('composite', 'cusps of the pieces are understood' + tag, wu, None, clip(k)); continue
            j = src[0]
            seen.add(j)
            C.ob('composite', 'cusps of piece %d are reported at their place along the whole path%s' % (j + 1, tag), wu,
                 num_same([(subst(k, {el[0]: sym('pos:e', 'r')}), div(add(cum[j], mul(sym('pos:e', 'r'), ls[j])), tot))], box), clip(k))
        for j in range(n):
            if j not in seen:
                C.ob('composite', 'the cusps of piece %d are reported%s' % (j + 1, tag), wu, None if any(ops_of(k) & set(VAGUE) for _, k, _ in it) else False, 'not inserted')

def batch(C):
    for k in C.func(r'Planner::Path<.*>::Interpolate', 1, many=True):
        f = C.P.F[k]
        if 'vector' not in f['ps'][0]['t']:
            continue
        r = sym('ratios0', 'o')
        I = C.run(k, args={0: r}, opaque=('Interpolate',))
        w = C.where(k)
        d = vdesc(I, I.ret)
        if len(d) != 1 or d[0][0] != 'rep':
            C.ob('batch', 'interpolating a list gives one state per ratio', w, False if d and all(x[0] in ('elem', 'base', 'front') for x in d) else None, str(d)[:200]); continue
        _, L, x, n = d[0]
        C.same('batch', 'as many states as ratios', w, n if n is not None else unk('n'), size(r))
        ok = x.op == 'app' and x.a[0] == 'call:Interpolate' and decide_same(x.a[-1], vget(r, raw('iv', L.id), 'r'))[0]
        C.ob('batch', 'the i-th state is the state at the i-th ratio', w, ok, clip(x))

def run(C):
    C.assume.append('real arithmetic; ratios within [0, 1]; path and motion lengths finite and positive; pieces of a composite path fulfil the contract of a path')
    C.each(simple, steer, reeds, composite, batch)
