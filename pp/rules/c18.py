"""Best-candidate scans: a loop-carried cost is kept or replaced. The replacement must imply an improvement, keeping must imply that
the candidate is no better (or infeasible), every companion is replaced under exactly the same condition, and the scan covers every
candidate. Decided on the gated next-values of the loop."""
from lib import *
TECHNIQUE = 'static gated-SSA analysis of the argmin loops (lock-step replacement of companion values) over the clang AST'

RS = 'Planner::ReedsShepp::'

def run(C):
    C.each(shortest, optimal, rrtstar, meeting, callers)

def at(e):
    return '%s:%s' % (e.file.split('/src/')[-1] if e.file else '?', e.line)

def cases(t, g=()):
    """[(guards, leaf)] of a gated value"""
    if t.op == 'ite':
        return cases(t.a[1], g + (t.a[0],)) + cases(t.a[2], g + (not_(t.a[0]),))
    return [(g, t)]

def scan(C, w, I, L, after, infeasible=FALSE, init=None, best=None, covered=None):
    """after: terms used after the loop. Returns (best loc, candidate, {loc: candidate value})"""
    used = set()
    for t in after:
        if t is not None:
            used |= set(subterms(t))
    carried = {loc: p for loc, p in L.phi.items() if loc in L.next and L.next[loc] is not p and not (L.next[loc].op == 'poly' and p in subterms(L.next[loc]))}
    selfcmp = [loc for loc, p in carried.items() if ty(p) == 'r' and any(p in subterms(x) for g, _ in cases(L.next[loc]) for x in g)]
    if best is None:
        best = selfcmp[0] if len(selfcmp) == 1 else None
    live = {loc: p for loc, p in carried.items() if p in used}
    if best is None:
        upd = {x for loc in live for g, lf in cases(L.next[loc]) for x in g}
        if live and not selfcmp and not any(p in subterms(x) for x in upd for p in L.phi.values() if p.op == 'phi') and not any(x.op in VAGUE for u in upd for x in top(u)):
            C.ob('scan', 'the retained cost is replaced with the candidate', w, False, 'candidates are never compared with the best so far')
        elif not selfcmp and any(x[0] == 'break' for x in L.exits):
            C.ob('scan', 'the scan runs over all candidates', w, False, 'stops at the first improvement')
        else:
            C.ob('scan', 'a best candidate is retained', w, None, '%d compared values' % len(selfcmp))
        return None
    p = L.phi[best]
    cs = cases(L.next[best])
    cand = [lf for g, lf in cs if lf is not p]
    if len(set(cand)) != 1:
        C.ob('scan', 'one cost per candidate', w, None, '%d values' % len(set(cand)))
        return None
    K = cand[0]
    m = abstraction([K, infeasible] + [x for loc in live for g, _ in cases(L.next[loc]) for x in g] + [x for g, _ in cs for x in g], {p: sym('best', 'r')})
    q, k = m[p], subst(K, m)
    U = []
    for g, lf in cs:
        gg = tuple(subst(x, m) for x in g)
        if lf is p:
            C.ob('scan', 'a candidate is passed over only if no better or infeasible', w, decide_implied(gg + (lt(k, q), not_(subst(infeasible, m))), FALSE) if ok(gg) else None, '; '.join(clip(x, 120) for x in gg))
        else:
            U.append(and_(*g))
            C.ob('scan', 'the best is replaced only by a better candidate', w, decide_implied(gg, le(k, q)), '; '.join(clip(x, 120) for x in gg))
    if init is None:
        i0 = L.init.get(best)
        C.ob('scan', 'the scan starts from no candidate', w, True if i0 is INF else False if i0 is not None and i0.op == 'c' else None, clip(i0))
    if covered is not False:
        ex = [x for x in L.exits if x[0] != 'normal']
        C.ob('scan', 'the scan runs over all candidates', w, False if any(x[0] == 'break' for x in ex) else None if ex else True, ', '.join(x[0] for x in ex))
    u = subst(or_(*U), m)
    comp = {best: K}
    for loc, ph in live.items():
        if loc == best:
            continue
        cs2 = cases(L.next[loc])
        up = or_(*[and_(*g) for g, lf in cs2 if lf is not ph])
        lv = {lf for g, lf in cs2 if lf is not ph}
        r = decide_same(subst(up, m), u)[0] if not any(ph in subterms(x) for x in lv) else None
        C.ob('scan', 'the data kept with the best candidate change exactly when it does', w, r, '%s changes when %s' % (loc[0][-1] if loc[0][0] != 'L' else 'a local', clip(up, 160)))
        if len(lv) == 1:
            comp[loc] = lv.pop()
    # values read after the loop which are replaced in every iteration instead
    C.count('scans')
    return best, K, comp

def abstraction(ts, m=None):
    """fresh symbols for the opaque results the terms are made of"""
    m = dict(m or {})
    def go(t):
        if t in m or not hasattr(t, 'op'):
            return
        if t.op in ('app', 'phi', 'fld', 'obj', 'elem', 'idx', 'hphi', 'has') or t.op in VAGUE:
            m[t] = sym('v%d' % len(m), ty(t))
            return
        for x in kids(t):
            go(x)
    for t in ts:
        go(t)
    return m

def top(t):
    """the opaque results a term is made of"""
    return list(abstraction([t]))

def kids(t):
    if t.op == 'poly':
        return [at for mo, c in t.a[0] for at, e in mo]
    return [x for x in t.a if hasattr(x, 'op')]

def ok(g):
    return not any(ops_of(x) & set(VAGUE) for x in g)

def solver_helpers(C):
    from rules import c16
    return c16.helpers(C)

def pget(C, I, k, i):
    ps = C.P.F[k]['ps'][i]
    s = sym(ps['n'], 'p')
    nn = not_(eq(s, NULL))
    return simp_under(I.read(I.S.fork(nn), I.deref(s, C.P.pointee(ps['t']) or '')), (nn,))

def shortest(C):
    gp, gm, ga = solver_helpers(C)
    n = tuple(C.P.F[k]['n'] for k in (gp, gm, ga))
    k = C.func(RS + 'Solver::GetShortestDistance', 5)
    w = C.where(k)
    I = C.run(k, opaque=n, unroll=6)
    e = [x for x in I.events if x.kind == 'call' and x.name == n[1]]
    C.need(e and I.loops.get(e[0].loops), 'scan over the words')
    L = I.loops[e[0].loops]
    out = pget(C, I, k, 4)
    for j in range(3):
        x = out.a[j] if out.op == 'vec' else fld(out, str(j), 'r')
        C.ob('scan', 'parameter %d of the best word is kept' % (j + 1), w, False if x.op == 'uninit' else True, 'never assigned')
    r = scan(C, w, I, L, [I.ret, pget(C, I, k, 3), out])
    if r:
        C.ob('scan', 'words are compared by their length', w, True if r[1] is e[0].res else None, clip(r[1]))
        same_candidate(C, w, L, r, e[0])

def same_candidate(C, w, L, r, e):
    for loc, v in r[2].items():
        if loc == r[0]:
            continue
        if v.op == 'app' and str(v.a[0]).startswith('out:' + e.name + ':'):
            C.ob('scan', 'the data kept are those of the candidate', w, v.a[2:] == e.res.a[2:], clip(v, 160))

def optimal(C):
    gp, gm, ga = solver_helpers(C)
    n = tuple(C.P.F[k]['n'] for k in (gp, gm, ga))
    k = C.func(RS + 'Solver::GetOptimalPath', 7)
    w = C.where(k)
    I = C.run(k, opaque=n + ('ComputeCost',), unroll=6)
    e = [x for x in I.events if x.kind == 'call' and x.name == n[1]]
    cc = [x for x in I.events if x.kind == 'call' and x.name == 'ComputeCost']
    bl = [x for x in I.events if x.kind == 'call' and x.name == n[0]]
    C.need(e and cc and bl and I.loops.get(e[0].loops), 'scan over the words')
    L = I.loops[e[0].loops]
    r = scan(C, w, I, L, [I.ret, pget(C, I, k, 6)], infeasible=eq(INF, e[0].res))
    if r:
        C.ob('scan', 'words are compared by their cost', w, True if r[1] is cc[0].res else None, clip(r[1]))
        C.ob('scan', 'the cost compared is that of the path kept', w, True if cc[0].recv is bl[0].res else None, clip(cc[0].recv))

def rrtstar(C):
    ks = C.func('Planner::RRTStar<.*>::SearchPath', 0, many=True)
    for k in ks:
        w = C.where(k)
        I = C.run(k, opaque=("Extend", "GetNearestNode", "GetNearestNodes", "CreateRootNode", "SampleUniform", "Clear", "Truncate", "GetLength", "IsPathValid", "IsSolution", "SteerTowards"),
                  nomut=("GetNearestNode", "GetNearestNodes", "SteerTowards", "IsSolution", "Clear"))
        ex = [e for e in I.events if e.kind == 'call' and e.name == 'Extend']
        cn = [e for e in I.events if e.kind == 'call' and e.name == 'Connect']
        C.need(ex and cn, 'choice of the parent')
        L = I.loops.get(cn[-1].loops)
        if L is None or L.range is None and trips(L) is None:
            C.ob('scan', 'parents are scanned', w, None)
            continue
        st = {}
        for e in I.events:
            if e.kind == 'store' and e.recvlv is not None and e.recvlv.root[0] == 'O' and e.recvlv.root[1] is ex[0].res and e.recvlv.path:
                st[e.recvlv.path[-1][1]] = e.args[0]
        after = [ex[0].args[1]] + list(st.values())
        va = [e for e in I.events if e.kind == 'call' and e.name == 'IsPathValid' and e.loops == cn[-1].loops]
        inf = not_(va[0].res) if va else FALSE
        r = scan(C, w, I, L, after, infeasible=inf, init=True)
        if not r:
            continue
        best, K, comp = r
        for nm, v in list(st.items()) + [('parent', ex[0].args[1])]:
            C.ob('scan', 'the %s given to the new node is that of the best candidate' % nm, at(ex[0]), True if any(L.phi[l] in subterms(v) for l in comp) else False if nm in ('costFromGoal', 'path', 'parent') and not ops_of(v) & set(VAGUE) else None, clip(v, 160))
        par = next((v for l, v in comp.items() if L.phi[l] is ex[0].args[1]), None)
        # the cost compared is that of the node kept
        if par is not None:
            own = [x for x in subterms(K) if x.op == 'fld' and x.a[1] == 'costFromGoal']
            base = [x for x in own if par in direct(x)]
            C.ob('scan', 'the cost compared is that of the parent kept', at(ex[0]), True if base else False if own else None, clip(K, 200))
            i0 = L.init.get(best)
            p0 = L.init.get(next(l for l in comp if L.phi[l] is ex[0].args[1]))
            own0 = [x for x in subterms(i0) if x.op == 'fld' and x.a[1] == 'costFromGoal'] if i0 is not None else []
            C.ob('scan', 'the first candidate is the nearest node at its own cost', at(ex[0]), True if any(p0 in direct(x) for x in own0) else False if own0 or i0 is INF else None, clip(i0, 200))
        t = trips(L)
        C.ob('scan', 'all near nodes are candidates', w, True if L.range is not None else None)
        C.ob('scan', 'the near nodes are those of the tree', w, True if L.range is not None and 'call:GetNearestNodes' in str(L.range.a[0] if L.range.op == 'app' else L.range) else None, clip(L.range, 160))
        # the path kept is the one connecting the parent kept
        for l, v in comp.items():
            if ty(v) == 'p' and v.op == 'alloc' and par is not None:
                c = [e for e in cn if e.res is v]
                if c:
                    C.ob('scan', 'the motion kept starts at the parent kept', at(c[0]), True if par in set(subterms(c[0].args[0])) and direct_state(c[0].args[0]) is par else None, clip(c[0].args[0], 160))

def direct(x):
    """pointers of the object a field is read from"""
    b = x
    while b.op in ('fld',):
        b = b.a[0]
    return [y for y in b.a if hasattr(y, 'op')]

def direct_state(t):
    while t.op == 'fld':
        t = t.a[0]
    ps = [y for y in t.a if hasattr(y, 'op') and ty(y) == 'p']
    return ps[-1] if ps else None

def meeting(C):
    for k in C.func('Planner::BidirectionalAStar<.*>::FindIntersection', 4, many=True):
        w = C.where(k)
        ps = C.P.F[k]['ps']
        I = C.run(k)
        names = [p['n'] for p in ps]
        A, B = sym(names[1], 'o'), sym(names[2], 'o')
        key = [kk for kk in I.S.mem if kk[0] == 'P' and kk[1] == names[3]]
        if not key:
            C.ob('meet', 'the best cost is replaced', w, False, 'never assigned')
            continue
        q = sym(names[3], 'r')
        nx = I.read(I.S, LV(key[0], (), 'double'))
        cs = cases(nx)
        cand = {lf for g, lf in cs if lf is not q}
        if len(cand) != 1:
            C.ob('meet', 'one candidate cost', w, None, clip(nx))
            continue
        K = cand.pop()
        nA = sym(names[0], 'p')
        st = fld(fld(raw('obj', nA), 'm_data', 'o'), 'state', 'o')
        nB = app('mget', fld(B, 'm_explored', 'o'), st, ty='p')
        has = raw('has', fld(B, 'm_explored', 'o'), st)
        cost = lambda n: fld(fld(raw('obj', n), 'm_data', 'o'), 'pathCost', 'r')
        C.same('meet', 'the candidate cost is the sum of both path costs at the meeting state', w, K, add(cost(nA), cost(nB)))
        m = abstraction([K, has], {q: sym('best', 'r')})
        k1, b1 = subst(K, m), m[q]
        up = subst(or_(*[and_(*g) for g, lf in cs if lf is not q]), m)
        C.same('meet', 'the best cost is replaced exactly when the searches meet at a lower cost', w, up, and_(subst(has, m), lt(k1, b1)), n=60)
        for i, o, want in ((1, A, nA), (2, B, nB)):
            kk = [x for x in I.S.mem if x[0] == 'P' and x[1] == names[i]]
            if not kk:
                C.ob('meet', 'the meeting node is recorded', w, False, names[i] + ' is not changed')
                continue
            v = fld(I.read(I.S, LV(kk[0], (), ps[i]['t'])), 'm_solutionNode', 'p')
            old = fld(o, 'm_solutionNode', 'p')
            c2 = cases(v)
            u2 = subst(or_(*[and_(*g) for g, lf in c2 if lf is not old]), m)
            C.same('meet', 'the meeting node of %s changes exactly with the best cost' % names[i], w, u2, up, n=60)
            lv = {lf for g, lf in c2 if lf is not old}
            C.ob('meet', 'the meeting node of %s is its own' % names[i], w, True if lv == {want} else False if lv == {nA} or lv == {nB} else None, clip(v, 200))

def callers(C):
    """both directions report to the same best cost, each with its own node"""
    for k in C.func('Planner::BidirectionalAStar<.*>::SearchPath', 0, many=True):
        w = C.where(k)
        I = C.run(k, opaque=('FindIntersection', 'Expand', 'Pop', 'InitializeSearch', 'Update', 'GetHeuristicValue', 'SetInitState', 'SetGoalState', 'Top', 'Empty'))
        ev = [e for e in I.events if e.kind == 'call' and e.name == 'FindIntersection']
        C.need(ev, 'intersection tests')
        seen = set()
        for e in ev:
            a, b = fname(e.args[1]), fname(e.args[2])
            seen.add((a, b))
            pop = e.args[0]
            C.ob('meet', 'the node tested was expanded by the search it is tested for', at(e), True if a in str(pop) and b not in pop_recv(pop) else False if b in pop_recv(pop) else None, clip(pop, 160))
        C.ob('meet', 'both directions test for an intersection', w, True if seen == {('m_fSearch', 'm_rSearch'), ('m_rSearch', 'm_fSearch')} else False if len(seen) == 1 or any(a == b for a, b in seen) else None, str(seen))

def fname(t):
    while t is not None and t.op not in ('fld',):
        nx = [y for y in t.a if hasattr(y, 'op')]
        if not nx:
            return str(t)
        t = nx[0]
    return t.a[1]

def pop_recv(t):
    return fpath(t)

def fpath(t):
    """field names on the spine of the receiver of a call"""
    out = []
    n = 0
    while t is not None and n < 40:
        n += 1
        if t.op == 'fld':
            out.append(str(t.a[1]))
            if str(t.a[1]) in ('m_fSearch', 'm_rSearch'):
                break
        nx = [y for y in t.a if hasattr(y, 'op')]
        t = nx[0] if nx else None
    return out
