"""Heuristic fields: what is entered in each cell, and which cell is read back, decided on the transfer functions of the fill and of the lookup."""
from lib import *
from rules.c03 import arms, rets
from rules.c07 import op, null, owners
import random

this = sym('this', 'p')
me = raw('obj', this)
TECHNIQUE = 'static analysis: symbolic transfer functions of field fill and lookup; guard implication per propagation step, inverse-index check by random interpretation'
ZERO, ONE = const(0), const(1)
NH, OH = 'Planner::NonHolonomicHeuristic', 'Planner::ObstaclesHeuristic'

# ------------------------------------------------------------------ table of obstacle-free costs
def pose(t):
    p = fld(t, 'position', 'o')
    return comp(p, 0), comp(p, 1), fld(t, 'theta', 'r')

def comp(p, i):
    for n in (str(i), i):
        try:
            v = fld(p, n, 'r')
            if v.op != 'fld' or p.op != 'st':
                return v
        except Exception:
            pass
    return fld(p, str(i), 'r')

def triple(lv):
    """the three indices of a table entry written through lv"""
    if lv is None or lv.root[0] != 'O' or len(lv.path) != 1 or lv.path[0][0] != 'i':
        return None
    k = lv.path[0][1]
    p = lv.root[1]
    out = [k]
    while len(out) < 3:
        if p.op != 'vget':
            return None
        out.insert(0, p.a[1])
        p = p.a[0]
        if p.op == 'vget':
            p = p.a[1]
        elif p.op == 'obj':
            p = p.a[0]
        elif len(out) < 3:
            return None
    return tuple(out)

def rtriple(t):
    out = []
    while len(out) < 3:
        if t.op != 'vget':
            return None
        out.insert(0, t.a[1])
        t = t.a[0]
        if t.op == 'obj':
            t = t.a[0]
    return tuple(out)

def wrap(a):
    import math
    while a >= math.pi:
        a -= 2 * math.pi
    while a < -math.pi:
        a += 2 * math.pi
    return a

def table(C):
    import math
    kb = op(C, NH, 'Build', 7)
    names = [p['n'] for p in C.P.F[kb]['ps']]
    B = C.run(kb, opaque=('GetOptimalPath', 'ComputeCost', 'WrapTheta'), nomut=('GetOptimalPath', 'ComputeCost', 'WrapTheta'))
    wb = C.where(kb)
    kl = op(C, NH, 'GetHeuristicValue', 1)
    Lk = C.run(kl, opaque=('operator-', 'WrapTheta'), nomut=('operator-', 'WrapTheta'))
    wl = C.where(kl)
    state = sym(C.P.F[kl]['ps'][0]['n'], 'o')
    goal = fld(me, 'm_goal', 'o')
    deltas = list(dict.fromkeys(x for e in rets(Lk) for x in subterms(e.args[0]) if x.op == 'app' and x.a[0] == 'call:operator-'))
    C.need(len(deltas) == 1, 'the lookup is not made by one relative pose')
    d = deltas[0]
    a, b = d.a[2], d.a[3]
    if (a, b) == (goal, state):
        order = 1
    elif (a, b) == (state, goal):
        order = -1
    else:
        C.ob('table', 'the lookup relates the state asked about and the goal', wl, None, clip(d, 120))
        return
    reads = []
    for e in rets(Lk):
        for v, g in arms(e.args[0]):
            t = rtriple(v)
            if t is not None:
                reads.append((t, tuple(literals(e.guard)) + g))
            elif not any(x.op == 'vget' for x in subterms(v)):
                rn, fn = fld(me, 'reverseCostMultiplier', 'r'), fld(me, 'forwardCostMultiplier', 'r')
                dx, dy, _ = pose(d)
                gx, gy, _ = pose(goal)
                sx, sy, _ = pose(state)
                e1 = mul(minmax('min', rn, fn), fn1('sqrt', add(mul(dx, dx), mul(dy, dy))))
                e2 = mul(minmax('min', rn, fn), fn1('sqrt', add(mul(sub(gx, sx), sub(gx, sx)), mul(sub(gy, sy), sub(gy, sy)))))
                gg = tuple(literals(e.guard)) + g
                r1, r2 = decide_same(v, e1, gg)[0], decide_same(v, e2, gg)[0]
                C.ob('table', 'outside the table the value is the straight-line distance at the smaller multiplier', wl, True if r1 or r2 else False if r1 is False and r2 is False else None, clip(v, 200))
    C.need(reads, 'nothing is read from the table')
    fills = []
    for e in B.events:
        if e.kind == 'store' and e.loops:
            t = triple(e.recvlv)
            v = e.args[-1]
            if t is not None and any(x.op == 'app' and x.a[0] == 'call:GetOptimalPath' for x in subterms(v)):
                fills.append((t, v, e))
    C.need(len(fills) == 1, 'the table is not filled by one statement')
    t, v, e = fills[0]
    C.ob('table', 'the entry is the cost of a path', wb, True if v.op == 'app' and v.a[0] == 'call:ComputeCost' else None, clip(v, 100))
    P = [x for x in subterms(v) if x.op == 'app' and x.a[0] == 'call:GetOptimalPath'][0]
    fr, to = P.a[2], P.a[3]
    # members of the heuristic in terms of what Build was given
    S = B.S
    mem = {}
    for f in ('spatialResolution', 'angularResolution', 'offsetX', 'offsetY', 'numSpatialX', 'numSpatialY', 'numAngular'):
        hv = [fld(B.read(S, B.deref(B.ret, NH)), f, 'i' if f.startswith('num') else 'r')]
        hv = [x for x in hv if not (x.op == 'fld' and x.a[0].op in ('obj', 'vget'))]
        if hv:
            mem[f] = hv[0]
    C.need(len(mem) == 7, 'the dimensions of the table could not be followed')
    rnd = random.Random(7)
    bad = cov = far = None
    close_ = 0
    done = 0
    ivs = sorted({x for y in t for x in subterms(y) if x.op == 'iv'}, key=lambda x: len(x.a[0]))
    bnd = sym(names[0], 'o')
    for trial in range(60):
        sres, ares = rnd.uniform(.2, 1.5), rnd.choice((.3, .5, .7, 2 * math.pi / 8, 1.1, rnd.uniform(.2, 1.3)))
        fx = {sym('spatialResolution', 'r'): sres, sym('angularResolution', 'r'): ares}
        x0, y0 = rnd.uniform(-5, 1), rnd.uniform(-4, 0)
        w, h = sres * rnd.uniform(1.2, 7), sres * rnd.uniform(1.2, 7)
        for x in set().union(*[set(subterms(y)) for y in list(mem.values()) + [P]]):
            if x.op == 'vget' and x.a[0] is bnd and isnum(x.a[1]):
                i = int(x.a[1].a[1])
                q = pose(x)
                fx[q[0]], fx[q[1]] = (x0 + i * w), (y0 + i * h)
        ri = RI(trial + 1, fixed=dict(fx))
        try:
            mv = {f: float(ri.ev(m)) for f, m in mem.items()}
        except Exception as ex:
            continue
        n = [int(mv['numSpatialX']), int(mv['numSpatialY']), int(mv['numAngular'])]
        if min(n) < 1 or max(n) > 200:
            continue
        # the entries written
        if trial < 12:
            for ax in range(3):
                iv_ = [x for x in subterms(t[ax]) if x.op == 'iv']
                if len(set(iv_)) != 1:
                    cov = cov if cov is not None else 'unk'
                    continue
                L = B.loops.get(iv_[0].a[0])
                if L is None or L.cond is None:
                    cov = cov if cov is not None else 'unk'
                    continue
                seen, c = set(), 0
                while c <= n[ax] + 2:
                    r2 = RI(trial + 1, fixed=dict(fx, **{}) | {iv_[0]: c})
                    if not r2.ev(cond_of(L)):
                        break
                    seen.add(int(round(float(r2.ev(t[ax])))))
                    c += 1
                if seen != set(range(n[ax])) and cov in (None, 'unk'):
                    cov = (ax, n[ax], sorted(seen)[:3], sorted(seen)[-2:])
        # an entry and the lookup of the pose it was computed for
        at_ = {x: rnd.randrange(0, max(1, nn)) for x, nn in zip(ivs, n)} if len(ivs) == 3 else None
        if at_ is None:
            break
        wr = {}
        for x in subterms(P):
            if x.op == 'app' and x.a[0] == 'call:WrapTheta':
                wr[x] = wrap(float(RI(trial + 1, fixed=dict(fx) | at_).ev(fld(x.a[2], 'theta', 'r'))))
        r3 = RI(trial + 1, fixed=dict(fx) | at_ | wr)
        f_, t_ = [[float(r3.ev(c)) for c in pose(q)] for q in (fr, to)]
        if order < 0:
            f_, t_ = t_, f_
        dx, dy = t_[0] - f_[0], t_[1] - f_[1]
        c_, s_ = math.cos(-f_[2]), math.sin(-f_[2])
        rel = (c_ * dx - s_ * dy, s_ * dx + c_ * dy, wrap(t_[2] - f_[2]))
        if abs(abs(rel[2]) - math.pi) < 1e-6:
            continue
        want = [int(round(float(r3.ev(c)))) for c in t]
        q = pose(d)
        fl = {q[0]: rel[0], q[1]: rel[1], q[2]: rel[2]}
        for f, val in mv.items():
            fl[fld(me, f, 'i' if f.startswith('num') else 'r')] = int(val) if f.startswith('num') else val
        for tr, g in reads:
            r4 = RI(trial + 1, fixed=dict(fl))
            if not all(r4.ev(l) for l in g):
                continue
            got = [int(round(float(r4.ev(c)))) for c in tr]
            done += 1
            if got != want and bad is None:
                bad = 'the entry (%s) is computed for a pose that is looked up in (%s)' % (', '.join(map(str, want)), ', '.join(map(str, got)))
        # any pose inside the table: the entry read is that of a pose within half a cell
        if all(y.op == 'iv' for y in t):
            rel = [rnd.uniform(-.49, .49) * n[0] * sres, rnd.uniform(-.49, .49) * n[1] * sres, rnd.choice((rnd.uniform(-math.pi, math.pi), -rnd.uniform(0, .5) * ares))]
            fl.update(zip(q, rel))
            for tr, g in reads:
                r5 = RI(trial + 1, fixed=dict(fl))
                if not all(r5.ev(l) for l in g):
                    continue
                got = [int(round(float(r5.ev(c)))) for c in tr]
                if not all(0 <= x < m_ for x, m_ in zip(got, n)):
                    continue
                fix = dict(fx) | dict(zip(t, got))
                wr = {x: wrap(float(RI(trial + 1, fixed=fix).ev(fld(x.a[2], 'theta', 'r')))) for x in subterms(P) if x.op == 'app' and x.a[0] == 'call:WrapTheta'}
                r6 = RI(trial + 1, fixed=fix | wr)
                f_, t_ = [[float(r6.ev(c)) for c in pose(z)] for z in (fr, to)]
                if order < 0:
                    f_, t_ = t_, f_
                if any(abs(x) > 1e-9 for x in f_):
                    continue
                close_ += 1
                off = [abs(rel[0] - t_[0]) / sres, abs(rel[1] - t_[1]) / sres, abs(wrap(rel[2] - t_[2])) / ares]
                if max(off) > .5 + 1e-6 and far is None:
                    far = 'a pose %s cells away from that of its entry' % ', '.join('%.2f' % x for x in off)
    C.ob('table', 'the entry read is the one closest to the relative pose', wl, False if far else True if close_ > 10 else None, far or '%d lookups' % close_)
    C.count('table entries interpreted', done)
    C.ob('table', 'each entry is computed for the very relative pose that is looked up in it', wb, False if bad else True if done > 20 else None, bad or '%d lookups' % done)
    C.ob('table', 'every entry of the table is computed', wb, True if cov is None else None if cov == 'unk' else False, str(cov))

def cond_of(L):
    iv = raw('iv', L.id)
    m = {}
    for k, p in L.phi.items():
        if L.init.get(k) is ZERO:
            m[p] = iv
    return subst(L.cond, m)

# ------------------------------------------------------------------ cost to the goal around obstacles
OPQ = ('Push', 'Pop', 'Empty', 'Remove', 'Find', 'IsOccupied', 'WorldPositionToGridCell', 'GetNeighbors')

def cellidx(g, row, col):
    return add(mul(fld(fld(me, g, 'o'), 'columns', 'i'), row), col)

def rc(p):
    return fld(p, 'row', 'i'), fld(p, 'col', 'i')

def ongrid(e, g):
    """index written by a store into grid g"""
    lv = e.recvlv
    if e.kind != 'store' or lv is None or lv.root[0] != 'O' or len(lv.path) != 1 or lv.path[0][0] != 'i':
        return None
    p = lv.root[1]
    return lv.path[0][1] if p is fld(fld(me, g, 'o'), 'm_data', 'p') or p.op == 'fld' and p.a[1] == 'm_data' and p.a[0] is fld(me, g, 'o') else None

def occ(I, row, col):
    out = []
    for e in I.events:
        if e.kind == 'call' and e.name == 'IsOccupied':
            r, c = rc(e.args[0]) if len(e.args) == 1 else e.args[:2]
            if r is row and c is col and e.res not in out:
                out.append(e.res)
    return out

def asked(I):
    return [rc(e.args[0]) if len(e.args) == 1 else tuple(e.args[:2]) for e in I.events if e.kind == 'call' and e.name == 'IsOccupied']

def need(C, rule, what, w, G, f, seen):
    """G must imply f; f is None when the condition it needs is never computed"""
    if f is None:
        C.ob(rule, what, w, None if seen else False, 'entered when %s' % clip_guard(G, 200))
        return
    C.implied(rule, what, w, G, f)

def update(C):
    k = op(C, OH, 'Update', 1)
    I = C.run(k, opaque=OPQ, nomut=OPQ)
    w = C.where(k)
    goal = sym(C.P.F[k]['ps'][0]['n'], 'o')
    pops = [e for e in I.events if e.kind == 'call' and e.name == 'Pop']
    C.need(len(pops) == 1, 'cells are not taken from the frontier in one place')
    Q = fld(pops[0].res, 'position', 'o')
    qr, qc = rc(Q)
    pushes = [e for e in I.events if e.kind == 'call' and e.name == 'Push']
    seeds = [e for e in pushes if not e.loops or pops[0].loops[:len(e.loops)] != e.loops and e.loops != pops[0].loops and e.seq < pops[0].seq]
    steps = [e for e in pushes if e not in seeds]
    C.need(seeds and steps, 'the propagation has another shape')
    # ---- seed
    stores = [(e, ongrid(e, 'm_cost')) for e in I.events if ongrid(e, 'm_cost') is not None]
    marks = [(e, ongrid(e, 'm_explored')) for e in I.events if ongrid(e, 'm_explored') is not None]
    for e in seeds:
        p, v = fld(e.args[0], 'position', 'o'), fld(e.args[0], 'value', 'r')
        C.ob('field', 'the propagation starts in the cell of the goal', w, True if p.op == 'app' and p.a[0] == 'call:WorldPositionToGridCell' and p.a[3] is fld(goal, 'position', 'o') else None if p.op not in ('app', 'st') else False, clip(p, 100))
        C.same('field', 'the goal is entered at cost zero', w, v, ZERO)
        C.ob('field', 'one cell is entered at first', w, len(seeds) == 1)
        i = cellidx('m_cost', *rc(p))
        own = [s for s, x in stores if x is i]
        C.ob('field', 'the cost recorded for the goal is zero', w, near(own[-1].args[-1], ZERO) if own else False, clip(own[-1].args[-1], 40) if own else 'not recorded')
    # ---- reset
    for g, val, nm in (('m_cost', None, 'cost'), ('m_explored', FALSE, 'explored mark')):
        rs = [(e, x) for e, x in (stores if g == 'm_cost' else marks) if e.seq < seeds[0].seq and e.loops]
        if not rs:
            n_ = [e for e in I.events if e.kind == 'call' and e.seq < seeds[0].seq and e.recvlv is not None and g in str(e.recvlv)]
            C.ob('reset', 'every %s of an earlier goal is forgotten' % nm, w, None if n_ or [e for e in I.events if e.kind == 'call' and e.name in ('fill', 'fill_n', 'Clear', 'Reset')] else False, 'no loop resets it')
            continue
        for e, x in rs:
            v = e.args[-1]
            C.ob('reset', 'every %s is reset to %s' % (nm, 'infinity' if val is None else 'false'), w, isinf(v) if val is None else v is val, clip(v, 40))
            ok = None
            if len(e.loops) == 2:
                La, Lb = I.loops[e.loops[:1]], I.loops[e.loops]
                na, nb = trips(La), trips(Lb)
                rows, cols = sizes(g)
                if x is cellidx(g, raw('iv', La.id), raw('iv', Lb.id)) and na is not None and nb is not None:
                    ok = True if na in rows and nb in cols else False if (isnum(sub(na, r)) for r in rows) and any(isnum(sub(na, r)) and sub(na, r) is not ZERO for r in rows) or any(isnum(sub(nb, r)) and sub(nb, r) is not ZERO for r in cols) else None
            bounds = []
            for i in range(len(e.loops)):
                t_ = trips(I.loops[e.loops[:i + 1]])
                if t_ is not None:
                    bounds += [lt(raw('iv', e.loops[:i + 1]), t_), le(ZERO, raw('iv', e.loops[:i + 1]))]
            rest = [l for l in literals(e.guard) if not entails(tuple(bounds), l)]
            free = [l for l in rest if not any(y.op == 'iv' for y in subterms(l))]
            held = [l for l in rest if l not in free and not any(('m_cost' in str(y.a) or 'm_explored' in str(y.a)) for y in subterms(l) if y.op == 'fld')]
            C.implied('reset', 'the %s is reset for every goal' % nm, w, (), and_(*free))
            C.ob('reset', 'the %s is reset whatever the map holds' % nm, w, True if not rest or not held else False if not any(y.op in ('unk', 'phi') for l in held for y in subterms(l)) and ok else None, clip_guard(tuple(held), 120))
            C.ob('reset', 'the %s of every cell is reset' % nm, w, ok, 'loops over %s' % ', '.join(clip(trips(I.loops[e.loops[:i + 1]]), 60) for i in range(len(e.loops)) if trips(I.loops[e.loops[:i + 1]]) is not None))
    # ---- marks
    mk = [(e, x) for e, x in marks if e.args[-1] is TRUE]
    C.ob('field', 'a cell taken from the frontier is marked as explored', w, True if any(x is cellidx('m_explored', qr, qc) and e.loops == pops[0].loops and set(literals(e.guard)) <= set(literals(pops[0].guard)) | set(literals(I.loops[e.loops].headguard)) | {not_(y.res) for y in I.events if y.name == 'Empty' and y.res is not None} for e, x in mk) else None if mk else False, 'no unconditional mark')
    for e, x in mk:
        if x is not cellidx('m_explored', qr, qc):
            C.ob('field', 'only a cell taken from the frontier is marked as explored', w, None if any(y.op in ('unk', 'phi') for y in subterms(x)) else False, clip(x, 100))
    # ---- steps
    nb = [e for e in I.events if e.kind == 'call' and e.name == 'GetNeighbors']
    fresh = better = 0
    for e in steps:
        G = tuple(literals(e.guard))
        p, v = fld(e.args[0], 'position', 'o'), fld(e.args[0], 'value', 'r')
        pr, pc = rc(p)
        if not (p.op == 'vget' and p.a[0].op == 'app' and p.a[0].a[0] == 'call:GetNeighbors'):
            C.ob('field', 'the cells entered are the neighbours of the cell taken', w, None, clip(p, 100))
            continue
        C.ob('field', 'the cells entered are the neighbours of the cell taken', w, p.a[0].a[2] is Q, clip(p, 100))
        o = occ(I, pr, pc)
        touched = [x.res for x in I.events if x.kind == 'call' and x.name == 'IsOccupied']
        need(C, 'step', 'an occupied cell is never entered', w, G, or_(*[not_(x) for x in o]) if o else None, any(x in set(subterms(l)) for l in G for x in touched) and not o and False)
        o1, o2 = occ(I, pr, qc), occ(I, qr, pc)
        straight = or_(eq(pr, qr), eq(pc, qc))
        if o1 and o2:
            C.implied('step', 'no diagonal step passes between two occupied cells', w, G, or_(straight, *[not_(x) for x in o1 + o2]))
        else:
            C.ob('step', 'no diagonal step passes between two occupied cells', w, True if entails(G, straight) else False if all(r in (pr, qr) and c in (pc, qc) for r, c in asked(I)) else None, 'entered when %s' % clip_guard(G, 200))
        iq = cellidx('m_cost', qr, qc)
        cq = list(dict.fromkeys(x for x in subterms(v) if x.op == 'vget' and x.a[1] is iq))
        if len(cq) == 1:
            want = add(cq[0], ite(straight, ONE, fn1('sqrt', const(2))))
            sp = [(straight,), (not_(straight),)]
            for s, nm in zip(sp, ('straight step costs one cell', 'diagonal step costs the diagonal of a cell')):
                if not unsat(G + s):
                    got = simp_under(sub(v, cq[0]), G + s)
                    C.ob('step', 'a %s more than the cell it leaves' % nm, w, near(got, ONE if s[0] is straight else fn1('sqrt', const(2)), G + s), clip(got, 60))
        else:
            other = [x for x in subterms(v) if x.op == 'vget' and ty(x) == 'r']
            C.ob('step', 'the cost of a cell is that of the cell it is entered from plus the step', w, None if cq or not other else False, clip(v, 120))
        ip = cellidx('m_cost', pr, pc)
        st_ = [s for s, x in stores if x is ip and set(literals(s.guard)) == set(G)]
        if not st_:
            st_ = [s for s, x in stores if x is ip and set(literals(s.guard)) <= set(G)]
        could = [s for s, x in stores if x is ip and not unsat(G + tuple(literals(s.guard)))]
        C.ob('step', 'the cost recorded for a cell is the one it waits with in the frontier', w, False if not could and all(x.op != 'unk' for s, x in stores) else True if st_ and st_[-1].args[-1] is v else False if st_ and decide_same(st_[-1].args[-1], v, G)[0] is False or not [1 for s, x in stores if x is ip] else None if not st_ else decide_same(st_[-1].args[-1], v, G)[0], clip(st_[-1].args[-1], 100) if st_ else 'not recorded')
        F = [x for x in I.events if x.kind == 'call' and x.name == 'Find' and fld(x.args[0], 'position', 'o') is p]
        ex = explored(I, e, pr, pc)
        if not F or ex is None:
            C.ob('step', 'a cell is entered when new, or again when reached at lower cost', w, None)
            continue
        f = F[0].res
        nul = null()
        val = fld(raw('obj', f), 'value', 'r')
        new = and_(eq(f, nul), not_(ex))
        flags = {x for x in subterms(ex) if x.op == 'vget' and ty(x) == 'b'}
        if entails(G, eq(f, nul)) and not any(x in flags for l in G for x in subterms(l)):
            C.ob('step', 'a cell is entered when new, or again when reached at lower cost', w, False, 'nothing keeps an explored cell out: %s' % clip_guard(G[-2:], 200))
        else:
            C.implied('step', 'a cell is entered when new, or again when reached at lower cost', w, G, or_(new, and_(not_(eq(f, nul)), le(v, val))))
        if not unsat(G + (not_(eq(f, nul)),)) and entails(G, not_(eq(f, nul))):
            better += 1
            rm = [x for x in I.events if x.kind == 'call' and x.name == 'Remove' and x.seq < e.seq and fld(x.args[0], 'position', 'o') is p and set(literals(x.guard)) <= set(G)]
            C.ob('step', 'a cell reached at lower cost leaves its old place in the frontier', w, bool(rm), 'not removed')
        # completeness
        L = I.loops.get(e.loops)
        if L is not None and o and o1 and o2:
            base = tuple(literals(L.headguard)) + tuple(l for l in G if l is raw_lt(p))
            ok_ = (not_(o[0]), or_(straight, not_(o1[0]), not_(o2[0])))
            if entails(G, eq(f, nul)):
                fresh += 1
                rest = [l for l in G if l not in base and not inloop(l, p)]
                C.implied('step', 'every free neighbour that is new is entered', w, tuple(l for l in G if inloop(l, p)) + base + ok_ + (new,), and_(*rest))
            elif entails(G, not_(eq(f, nul))):
                rest = [l for l in G if l not in base and not inloop(l, p)]
                C.implied('step', 'every free neighbour waiting at higher cost is entered anew', w, tuple(l for l in G if inloop(l, p)) + base + ok_ + (not_(eq(f, nul)), not_(ex), lt(v, val)), and_(*rest))

def raw_lt(p):
    return lt(p.a[1], size(p.a[0]))

def inloop(l, p):
    """the literal does not speak of the neighbour"""
    return not any(x is p for x in subterms(l))

def near(t, want, G=()):
    if t is want:
        return True
    if t.op == 'ite' and G:
        got = []
        for v, g in arms(t):
            if not unsat(G + g):
                r = near(v, want)
                got.append(r if r else None if r is None or find_counter(G, or_(*[not_(x) for x in g])) is None else False)
        return False if False in got else None if None in got or not got else True
    if isnum(t) or t.op in ('sqrt', 'poly', 'real') or not any(x.op in ('unk', 'phi', 'app', 'sym') for x in subterms(t)):
        try:
            a, b = float(RI(1).ev(t)), float(RI(1).ev(want))
            return abs(a - b) < 1e-5
        except Exception:
            return None
    return None

def explored(I, e, row, col):
    p = fld(fld(me, 'm_explored', 'o'), 'm_data', 'p')
    i = cellidx('m_explored', row, col)
    for x in I.events:
        if x.kind == 'store' and x.recvlv is not None and x.recvlv.root[0] == 'O' and ongrid(x, 'm_explored') is not None:
            from interp import LV
            a = I.base(e.S, x.recvlv.root)
            return vget(a, i, 'b')
    return None

def sizes(g):
    G = fld(me, g, 'o')
    m = raw('obj', fld(me, 'm_map', 'p'))
    return [fld(G, 'rows', 'i'), fld(m, 'm_rows', 'i')], [fld(G, 'columns', 'i'), fld(m, 'm_columns', 'i')]

def value(C):
    k = op(C, OH, 'GetHeuristicValue', 1)
    I = C.run(k, opaque=OPQ, nomut=OPQ)
    w = C.where(k)
    state = sym(C.P.F[k]['ps'][0]['n'], 'o')
    ev = [e for e in I.events if e.kind == 'call' and e.name == 'WorldPositionToGridCell']
    C.need(ev, 'no cell is looked up')
    cell = ev[0].res
    C.ob('value', 'the cell read is that of the state asked about', w, ev[0].args[0] is fld(state, 'position', 'o'), clip(ev[0].args[0], 80))
    gx, gy, _ = pose(fld(me, 'm_goal', 'o'))
    sx, sy, _ = pose(state)
    eu = fn1('sqrt', add(mul(sub(gx, sx), sub(gx, sx)), mul(sub(gy, sy), sub(gy, sy))))
    r, c = rc(cell)
    cost = vget(raw('obj', fld(fld(me, 'm_cost', 'o'), 'm_data', 'p')), cellidx('m_cost', r, c), 'r')
    ex = vget(raw('obj', fld(fld(me, 'm_explored', 'o'), 'm_data', 'p')), cellidx('m_explored', r, c), 'b')
    costs = [x for e in rets(I) for x in subterms(e.args[0]) if x.op == 'vget' and ty(x) == 'r']
    exs = [x for e in rets(I) for l in literals(e.guard) for x in subterms(l) if x.op == 'vget' and ty(x) == 'b']
    n = 0
    for e in rets(I):
        whole = entails(tuple(literals(e.guard)), ex) and any(x.op == 'vget' and ty(x) == 'r' for x in subterms(e.args[0]))
        for v, g in [(e.args[0], ())] if whole else arms(e.args[0]):
            G = tuple(literals(e.guard)) + g
            if unsat(G):
                continue
            reads = [x for x in subterms(v) if x.op == 'vget' and ty(x) == 'r']
            if not reads:
                C.same('value', 'where no cost is known the value is the straight-line distance to the goal', w, v, eu, guard=G)
                C.implied('value', 'the straight-line distance alone is answered only outside the map and in cells never reached', w, G, or_(lt(r, ZERO), lt(c, ZERO), not_(ex)))
                continue
            n += 1
            C.ob('value', 'the cost read is that of the cell of the state', w, all(x.a[1] is cellidx('m_cost', r, c) for x in reads), clip(reads[0].a[1], 100))
            C.implied('value', 'a cost is read only in cells that were reached', w, G, ex)
            want = minmax('max', eu, sub(mul(reads[0], fld(me, 'costMultiplier', 'r')), fld(me, 'diagonalResolution', 'r')))
            C.same('value', 'the value is the cost found, scaled, less one diagonal of a cell, and at least the straight-line distance', w, v, want, guard=G)
    C.need(n, 'no cost is read')

def order(C):
    ks = [k for k in sorted(C.P.F) if (C.P.F[k].get('cls') or '').startswith(OH + '::CompareCell') and C.P.F[k]['n'] == 'operator()' and C.P.F[k].get('body')]
    C.need(ks, 'no order of the frontier')
    for k in ks:
        I = C.run(k)
        a, b = (sym(p['n'], 'o') for p in C.P.F[k]['ps'])
        C.same('order', 'the cell of least cost is taken first', C.where(k), I.ret, lt(fld(b, 'value', 'r'), fld(a, 'value', 'r')))

def run(C):
    C.assume.append('the frontier hands out its least element and finds cells by position (C06); map cells answer IsOccupied (C09)')
    C.each(table, update, value, order)
