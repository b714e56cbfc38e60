"""Outcome typestate of the planners: at every return of a query the reported status is confronted with the solution the planner holds in
the symbolic state of that return (through the search loop, by its entry value and by what each way around it stores), with the goal
test that governs the return, and with what asking for the path yields in that state."""
from lib import *
from rules import c05

this = sym('this', 'p')
TECHNIQUE = 'static analysis: typestate of the stored solution at every return of a query, by symbolic dataflow through the search loop'
LEAF = ('IsSolution', 'IdenticalPoses', 'GetHeuristicValue', 'SetGoal', 'GetNeighborStates', 'AddChild', 'Expand', 'GetDepth', 'Connect', 'Truncate', 'IsPathValid', 'SampleUniform',
        'GetLength', 'GetFinalState')
PURE = tuple(x for x in LEAF if x != 'Truncate') + ('Find', 'Contains', 'Empty', 'Top', 'Size', 'GetNearestNode', 'GetNearestNodes')
BOX = ('Planner::Frontier<', 'Planner::Tree<', 'Planner::Explored')

def site(e):
    return '%s:%s' % (rel(e.file), e.line)

def opaque(C):
    return tuple({f.get('q') for f in C.P.F.values() if (f.get('cls') or '').startswith(BOX)}) + LEAF

def method(C, cls, name):
    """every instantiation of a method of a class template (or class)"""
    return [k for k in sorted(C.P.F) if C.P.F[k]['n'] == name and C.P.F[k].get('body') and ((C.P.F[k].get('cls') or '') == cls or (C.P.F[k].get('cls') or '').startswith(cls + '<'))
            and len(C.P.F[k]['ps']) == 0]

def rets(I):
    return [e for e in I.events if e.kind == 'return' and len(e.stack) == 1]

def arms(t, g=()):
    if t.op == 'ite':
        for c, x in ((t.a[0], t.a[1]), (not_(t.a[0]), t.a[2])):
            g2 = g + tuple(literals([c]))
            if not unsat(g2):
                yield from arms(x, g2)
    else:
        yield t, g

def sources(I, t, g, seen=None):
    """values a term may stand for: the arms of conditionals, and for a value carried by a loop its entry value and what the loop stores"""
    seen = set() if seen is None else seen
    for x, h in arms(t, g):
        if x.op == 'phi':
            if x in seen:
                continue
            seen.add(x)
            L = I.loops.get(x.a[0][0])
            kk = x.a[0][1:]
            if L is None or kk not in L.init:
                yield x, h, 'loop'
                continue
            yield from ((v, w, 'entry') for v, w, _ in sources(I, L.init[kk], (), seen))
            nx = L.next.get(kk)
            if nx is None:
                yield x, h, 'loop'
            elif nx is not x:
                yield from ((v, w, 'around') for v, w, _ in sources(I, nx, tuple(literals(list(L.backguard or ()))), seen))
        else:
            yield x, h, 'here'

def held(I, S, cls, path):
    t = I.read(S, I.deref(this, cls))
    for p in path[:-1]:
        t = fld(t, p)
    return fld(t, path[-1], 'p')

def stale(t, path):
    x = raw('obj', this)
    for p in path[:-1]:
        x = fld(x, p)
    return t is fld(x, path[-1], 'p')

def isnew(t):
    return t.op == 'alloc' or t.op == 'app' and (t.a[0] in ('call:Pop', 'call:Extend', 'call:CreateRootNode', 'call:Top') or t.a[0].startswith('std:') is False and t.a[0] == 'mget')

class Query:
    def __init__(s, C, k, nm, paths):
        s.C, s.k, s.nm, s.paths = C, k, nm, paths
        s.cls = C.P.F[k]['cls']
        s.I = C.run(k, opaque=opaque(C), nomut=PURE)

    def run(s):
        C, I = s.C, s.I
        R = rets(I)
        C.need(R, s.nm + ': no return')
        n = {}
        for e in R:
            for v, g in arms(e.args[0]):
                g = tuple(literals(e.guard)) + g
                if unsat(g):
                    continue
                if not isnum(v):
                    C.ob('status', s.nm + ': status', site(e), None, clip(v))
                    continue
                ok = v.a[1] == 0
                n[ok] = n.get(ok, 0) + 1
                for p in s.paths:
                    (s.success if ok else s.failure)(e, g, p)
        C.need(n.get(True), s.nm + ' never succeeds')
        C.need(n.get(False), s.nm + ' never fails')

    def failure(s, e, g, p):
        C, I = s.C, s.I
        t = simp_under(held(I, e.S, s.cls, p), g)
        what = '%s: a failed query leaves no solution (%s)' % (s.nm, '.'.join(p))
        w = site(e)
        if t is NULL or entails(g, eq(NULL, t)):
            C.ob('failure', what, w, True)
            return
        if entails(g, not_(eq(NULL, t))):
            C.ob('failure', what, w, False, 'the query fails while a solution is held: %s' % clip(t))
            return
        bad, unk = [], []
        for x, h, how in sources(I, t, g):
            if x is NULL:
                continue
            if stale(x, p):
                bad.append('the solution of an earlier query is still held')
            elif how == 'here' and isnew(x):
                bad.append('a solution is recorded: %s' % clip(x, 100))
            elif how == 'around' and len(s.paths) == 1 and isnew(x):
                (unk if any(t in list(subterms(l)) for l in g) or unsat(h) else bad).append('a solution is recorded on the way round: %s' % clip(x, 100))
            else:
                unk.append(clip(x, 100))
        if bad:
            C.ob('failure', what, w, False, bad[0])
        elif unk and len(s.paths) > 1:
            s.paired(e, g, p, w, what, unk)
        else:
            C.ob('failure', what, w, None if unk else True, '; '.join(unk))

    def paired(s, e, g, p, w, what, unk):
        """two searches that meet: the loop keeps 'a meeting is known only while both frontiers hold work' as an invariant"""
        C, I = s.C, s.I
        phis = {}
        for q in s.paths:
            t = held(I, e.S, s.cls, q)
            if t.op == 'phi':
                phis[q] = t
        if len(phis) != len(s.paths):
            C.ob('failure', what, w, None, '; '.join(unk))
            return
        L = I.loops.get(phis[p].a[0][0])
        if L is None or any(I.loops.get(x.a[0][0]) is not L for x in phis.values()):
            C.ob('failure', what, w, None, '; '.join(unk))
            return
        N = {q: nullness(x) for q, x in phis.items()}
        nx = {q: nullness(L.next[x.a[0][1:]]) for q, x in phis.items()}
        a, b = [N[q] for q in s.paths]
        na, nb = [nx[q] for q in s.paths]
        # emptiness of the queues at the loop head, and one step on
        emp = [t for l in g for t in subterms(l) if t.op == 'app' and t.a[0] == 'call:Empty' and any(y.op == 'phi' for y in subterms(t))]
        step = {x: L.next[x.a[0][1:]] for t in emp for x in subterms(t) if x.op == 'phi' and x.a[0][0] == L.id and x.a[0][1:] in L.next}
        inv = [iff(a, b)] + [or_(a, not_(t)) for t in dict.fromkeys(emp)]
        nxt = [iff(na, nb)] + [or_(na, not_(subst(t, step))) for t in dict.fromkeys(emp)]
        base = [NULL is L.init[phis[q].a[0][1:]] for q in s.paths]
        bg = [fresh(x) for x in literals(list(L.backguard or ()))]
        ok = all(base) and all(prop(bg + inv, f) for f in nxt) and prop([fresh(x) for x in g] + inv, a)
        C.ob('failure', what, w, True if ok else None, 'the meeting invariant is not re-established around the loop' if not ok else '')

    def success(s, e, g, p):
        C, I = s.C, s.I
        t = simp_under(held(I, e.S, s.cls, p), g)
        w = site(e)
        what = '%s: a successful query holds a solution found in it (%s)' % (s.nm, '.'.join(p))
        bad, unk = [], []
        for x, h, how in sources(I, t, g):
            if stale(x, p):
                bad.append('the solution of an earlier query is reported')
            elif x is NULL:
                if how == 'here':
                    bad.append('no solution is recorded')
                elif not entails(g, not_(eq(NULL, t))) and not prop([fresh(y) for y in g], not_(nullness(t))):
                    (bad if s.atonce(e, g, t) else unk).append('possibly none')
            elif not isnew(x):
                unk.append(clip(x, 100))
        C.ob('success', what, w, False if bad else None if unk else True, '; '.join((bad or unk)[:2]))
        if len(s.paths) > 1:
            return
        tests = [l for l in g if l.op == 'app' and l.a[0] == 'call:IsSolution']
        what = s.nm + ': success is reported only for a state its goal test accepted'
        if not tests and e.loops:
            d = {x: FALSE for l in g for x in subterms(l) if x.op == 'app' and x.a[0] == 'call:IsSolution'}
            g2 = [subst(l, d) for l in g]
            if not any(x.op == 'fld' and x.a[1] == 'm_goal' for l in g2 for x in subterms(l)) and not prop(g2, FALSE):
                C.ob('goal', what, w, False, 'success is reported although no goal test holds')
                return
        if not tests:
            goal = any(x.op == 'fld' and x.a[1] == 'm_goal' for l in g for x in subterms(l))
            neg = [l for l in g if any(x.op == 'app' and x.a[0] == 'call:IsSolution' for x in subterms(l))]
            C.ob('goal', what, w, None if goal or (neg and not all(l.op == 'not' for l in neg)) else False, 'no goal test holds where success is reported')
            return
        ok = None
        for l in tests:
            a = l.a[-1]
            if a is t:
                ok = True
                break
            exts = [x for x in I.events if x.kind == 'call' and x.name == 'Extend' and x.res is t and x.args]
            if exts:
                r, why = decide_same(exts[-1].args[0], a, g)
                sub_ = set(subterms(a))
                if r is None and exts[-1].args[0] not in sub_ and t not in sub_ and not any(x.op == 'app' and x.a[0] == 'call:GetFinalState' for x in sub_):
                    r = False
                ok = r if ok is not True else True
                if ok:
                    break
            elif isnew(a) and isnew(t) and a is not t:
                ok = False
            elif t.op == 'app' and t.a[0] == 'call:GetNearestNode' and not (a.op == 'fld' and a.a[1] == 'state' and t in set(subterms(a))):
                ok = False
        C.ob('goal', what, w, ok, 'the goal test was given %s, the reported solution is %s' % (clip(tests[0].a[-1], 100), clip(t, 100)))

    def atonce(s, e, g, t):
        """the return is reachable in the first round of its loop with no solution recorded"""
        I = s.I
        d = {}
        for lid in e.loops:
            L = I.loops.get((lid,)) or I.loops.get(lid)
            if L is None or len(e.loops) > 1:
                return False
            for q, p in L.phi.items():
                if q in L.init:
                    d[p] = L.init[q]
            d[raw('iv', L.id)] = const(0)
        if not d:
            return False
        g2 = [subst(l, d) for l in g]
        for x, h in arms(subst(t, d)):
            if x is NULL and not unsat(tuple(literals(g2)) + h) and not prop([fresh(y) for y in list(g2) + list(h)], FALSE):
                return True
        return False

def iff(a, b):
    return and_(or_(a, not_(b)), or_(not_(a), b))

def nullness(t):
    if t is NULL:
        return TRUE
    if isnew(t):
        return FALSE
    if t.op == 'ite':
        return ite(fresh(t.a[0]), nullness(t.a[1]), nullness(t.a[2]))
    return eq(NULL, t)

def fresh(t):
    """a node obtained from the queue, the tree or the explored map is a node"""
    d = {}
    for x in subterms(t):
        if x.op == 'eq' and NULL in x.a:
            o = x.a[1] if x.a[0] is NULL else x.a[0]
            if o.op == 'ite' or isnew(o):
                d[x] = nullness(o)
    return subst(t, d) if d else t

def prop(gs, f, depth=0):
    """propositional consequence over the atoms of the formulas"""
    gs = [x for x in literals(list(gs)) if x is not TRUE]
    if FALSE in gs or f is TRUE:
        return True
    for x in gs:
        if not_(x) in gs or x is f:
            return True
    at = pick([f] + gs)
    if at is None or depth > 14:
        return False
    for v in (TRUE, FALSE):
        d = {at: v}
        if not prop([subst(x, d) for x in gs], subst(f, d), depth + 1):
            return False
    return True

def pick(fs):
    for t in fs:
        st_ = [t]
        while st_:
            x = st_.pop()
            if x in (TRUE, FALSE):
                continue
            if x.op in ('and', 'or', 'not', 'ite'):
                st_ += list(reversed([y for y in x.a if isinstance(y, T)]))
                continue
            return x
    return None

def astar(C):
    ks = method(C, 'Planner::AStar', 'SearchPath')
    C.need(ks, 'no AStar::SearchPath')
    for k in ks:
        Query(C, k, 'A* (%s)' % label(C.P.F[k]['cls']), [('m_solutionNode',)]).run()

def label(c):
    return 'hybrid' if 'HybridAStar' in c else 'tree' if ', false' in c else 'explored map' if 'ExploredMap' in c else 'graph'

def rrt(C):
    for c in ('Planner::RRT', 'Planner::RRTStar'):
        ks = method(C, c, 'SearchPath')
        C.need(ks, 'no %s::SearchPath' % c)
        Query(C, ks[0], c.split('::')[-1], [('m_solutionNode',)]).run()

def bidir(C):
    ks = method(C, 'Planner::BidirectionalAStar', 'SearchPath')
    C.need(ks, 'no BidirectionalAStar::SearchPath')
    Query(C, ks[0], 'Bidirectional A*', [('m_fSearch', 'm_solutionNode'), ('m_rSearch', 'm_solutionNode')]).run()

def meet(C):
    c05.meet(C)

HOP = ('SearchPath', 'Update', 'SetInitState', 'SetGoalState', 'CreateStateFromPose', 'GetCompositePath', 'GetCuspPointRatios', 'Interpolate', 'Smooth', 'GetPath', 'GetLength', 'Size')
HPURE = ('CreateStateFromPose', 'GetCompositePath', 'GetCuspPointRatios', 'Interpolate', 'GetPath', 'GetLength', 'Size')

def hybrid(C):
    H = 'Planner::HybridAStar'
    ks = method(C, H, 'SearchPath')
    C.need(ks, 'no HybridAStar::SearchPath')
    I = C.run(ks[0], opaque=HOP, nomut=HPURE)
    runs = [e.res for e in I.events if e.kind == 'call' and e.name == 'SearchPath']
    C.need(runs, 'Hybrid A* runs no graph search')
    zero = const(0)
    for e in rets(I):
        for v, g in arms(e.args[0]):
            g = tuple(literals(e.guard)) + g
            if unsat(g):
                continue
            w = site(e)
            path = simp_under(fld(I.read(e.S, I.deref(this, H)), 'm_path'), g)
            neg = entails(g, lt(v, zero))
            pos = entails(g, not_(lt(v, zero)))
            old = path is fld(raw('obj', this), 'm_path')
            empty = path.op in ('vec', 'emp') and not path.a
            if not neg and not pos:
                C.ob('status', 'Hybrid A*: status', w, None, clip(v))
            elif neg:
                C.ob('failure', 'Hybrid A*: a failed query leaves no path', w, True if empty else False if old or path.op == 'vec' or path.op == 'app' else None,
                     'the path of an earlier query is kept' if old else clip(path, 120))
            else:
                ok = any(entails(g, not_(lt(r, zero))) for r in runs)
                seen = any(x in runs for l in g for x in subterms(l)) or v in runs
                C.ob('goal', 'Hybrid A*: success is reported only when its graph search succeeded', w, True if ok else None if seen else False, 'the outcome of the graph search does not matter where success is reported')
                C.ob('success', 'Hybrid A*: a successful query holds a path found in it', w, False if old or empty else True if path.op in ('vec', 'app') else None,
                     'the path of an earlier query is kept' if old else 'no path is recorded' if empty else clip(path, 120))
    for k in method(C, H, 'GetPath'):
        J = C.run(k)
        C.same('path', 'Hybrid A*: the path handed out is the one recorded by the query', C.where(k), J.ret, fld(raw('obj', this), 'm_path'))

def goaltest(C):
    for c in ('Planner::AStar', 'Planner::RRT', 'Planner::RRTStar'):
        n = 0
        for k in sorted(C.P.F):
            f = C.P.F[k]
            if f['n'] != 'IsSolution' or not (f.get('cls') or '').startswith(c + '<') or not f.get('body') or len(f['ps']) != 1:
                continue
            n += 1
            I = C.run(k)
            w = C.where(k)
            goal = fld(raw('obj', this), 'm_goal')
            p = f['ps'][0]['n']
            nm = c.split('::')[-1]
            st_ = fld(fld(raw('obj', sym(p, 'p')), 'm_data'), 'state') if c == 'Planner::AStar' else sym(p, 'o')
            what = '%s: the goal test compares the tested state with the goal of the query' % nm
            names = {x for x in subterms(I.ret)}
            if goal not in names and not any(x.op == 'fld' and x.a[0] is goal for x in names):
                C.ob('goal', what, w, False, '%s does not depend on the goal' % clip(I.ret, 120))
                continue
            if st_ not in names and not any(x.op == 'fld' and x.a[0] is st_ for x in names):
                C.ob('goal', what, w, False, '%s does not depend on the tested state' % clip(I.ret, 120))
                continue
            if I.ret.op == 'app' or I.ret.op == 'keq':
                C.ob('goal', what, w, True if I.ret.op == 'keq' and set(I.ret.a[:2]) == {st_, goal} or I.ret.op == 'app' and st_ in I.ret.a and goal in I.ret.a else None, clip(I.ret, 120))
                continue
            # an accepted state lies within one unit of the goal in each coordinate
            pairs = {}
            for x in names:
                if x.op == 'fld' and ty(x) in ('r', 'i', 'n'):
                    a = []
                    y = x
                    while y.op == 'fld' and y is not st_ and y is not goal:
                        a.append(y.a[1])
                        y = y.a[0]
                    pairs.setdefault(tuple(reversed(a)), {})[y is goal] = x
                elif x.op == 'app' and x.a[0] in ('vget', 'at'):
                    pass
            both = [d for d in pairs.values() if len(d) == 2]
            if not both:
                C.ob('goal', what, w, None, clip(I.ret, 120))
                continue
            one = const(1)
            for d in both:
                for h in (le(sub(d[True], d[False]), one), le(sub(d[False], d[True]), one)):
                    C.implied('goal', '%s: an accepted state is at the goal' % nm, w, (I.ret,), h)
        C.need(n, 'no %s::IsSolution' % c)

def getpath(C):
    for c in ('Planner::AStar', 'Planner::RRT', 'Planner::RRTStar'):
        ks = method(C, c, 'GetPath')
        C.need(ks, 'no %s::GetPath' % c)
        for k in ks:
            extract(C, k, c.split('::')[-1], 'state', 1)
    ks = method(C, 'Planner::AStar', 'GetActions')
    for k in ks:
        if 'HybridAStar' not in C.P.F[k]['cls']:
            continue  # actions without content
        extract(C, k, 'A* actions', 'action', 0)
    for k in method(C, 'Planner::BidirectionalAStar', 'GetPath'):
        I = C.run(k, opaque=('GetPath',), nomut=('GetPath',))
        w = C.where(k)
        o = raw('obj', this)
        ev = [e for e in I.events if e.kind == 'call' and e.name == 'GetPath']
        F = [e.res for e in ev if e.recv is fld(o, 'm_fSearch')]
        R = [e.res for e in ev if e.recv is fld(o, 'm_rSearch')]
        what = 'Bidirectional A*: the path runs to the meeting state and on from it, which occurs once'
        if not F or not R:
            C.ob('path', what, w, None if len(ev) != 2 else False, 'paths of both searches are not used')
            continue
        F, R = F[0], R[0]
        size = lambda v: [t for t in subterms(I.ret) if t.op == 'size' and t.a[0] is v or t.op == 'app' and t.a[0] == 'size' and v in t.a]
        cats = [t for t in subterms(I.ret) if t.op == 'vcat']
        for t, g in arms(I.ret):
            if t.op == 'vcat' and len(t.a) == 6:
                d, at, src, kind, lo, hi = t.a
                okd = d is F and src is R
                bad = []
                if d is R and src is F:
                    bad.append('the halves are exchanged')
                if okd and str(kind) != 'rit':
                    bad.append('the second half is not reversed')
                if okd and isnum(lo) and lo.a[1] != 1:
                    bad.append('it continues from state %s of the reversed half' % lo.a[1])
                full = at.op == 'size' and at.a[0] is d and hi.op == 'size' and hi.a[0] is src
                C.ob('path', what, w, False if bad else True if okd and full and isnum(lo) else None, '; '.join(bad) or clip(t, 150))
            elif t is F:
                C.ob('path', 'Bidirectional A*: only an empty reverse path adds nothing', w, True if any(not_(l) is not l and R in list(subterms(l)) for l in g) else False if not cats else None, clip(t, 100))
            else:
                C.ob('path', what, w, None, clip(t, 150))
    ks = method(C, 'Planner::BidirectionalAStar', 'GetOptimalCost')
    for k in ks:
        I = C.run(k, opaque=('GetOptimalCost',), nomut=('GetOptimalCost',))
        ev = [e for e in I.events if e.kind == 'call' and e.name == 'GetOptimalCost']
        o = raw('obj', this)
        F = [e.res for e in ev if e.recv is fld(o, 'm_fSearch')]
        R = [e.res for e in ev if e.recv is fld(o, 'm_rSearch')]
        if F and R:
            C.same('cost', 'Bidirectional A*: the reported cost is that of both halves', C.where(k), I.ret, add(F[0], R[0]))
        else:
            C.ob('cost', 'Bidirectional A*: the reported cost is that of both halves', C.where(k), None, clip(I.ret, 100))
    for k in method(C, 'Planner::AStar', 'GetOptimalCost'):
        I = C.run(k)
        sol = fld(raw('obj', this), 'm_solutionNode', 'p')
        C.same('cost', 'A*: the reported cost is the path cost of the solution, infinite without one', C.where(k), I.ret,
               ite(eq(NULL, sol), INF, fld(fld(raw('obj', sol), 'm_data'), 'pathCost', 'r')))

def entry(val, v):
    if val is v:
        return True
    if val.op == 'st':
        r = [entry(x, fld(v, n, ty(x))) for n, x in val.a[2]]
        return False if False in r else True if r and None not in r else None
    return decide_same(val, v, ())[0]

def extract(C, k, nm, field, extra):
    """walk from the solution to the root, filling the result from its end"""
    I = C.run(k, opaque=('GetDepth',), nomut=('GetDepth',))
    w = C.where(k)
    sol = fld(raw('obj', this), 'm_solutionNode', 'p')
    for t, g in arms(I.ret):
        if t.op == 'vec' and not t.a:
            C.ob('path', '%s: without a solution the path is empty' % nm, w, True if entails(g, eq(NULL, sol)) else None, clip_guard(g, 100))
            continue
        if entails(g, eq(NULL, sol)):
            C.ob('path', '%s: without a solution the path is empty' % nm, w, None, clip(t, 100))
            continue
        what = '%s: the path lists the states from the root to the solution along the parents' % nm
        if not entails(g, not_(eq(NULL, sol))):
            C.ob('path', '%s: without a solution the path is empty' % nm, w, None, clip(t, 100))
        L = I.loops.get(t.a[0][0]) if t.op == 'phi' else None
        if L is None:
            C.ob('path', what, w, None, clip(t, 150))
            continue
        kk = t.a[0][1:]
        nx, ini = L.next.get(kk), L.init.get(kk)
        walk = [p for q, p in L.phi.items() if L.init.get(q) is sol]
        if nx is None or nx.op != 'vset' or nx.a[0] is not t or not walk:
            C.ob('path', what, w, None, clip(nx, 150) if nx is not None else '')
            continue
        W = walk[0]
        nw = L.next.get(W.a[0][1:])
        par = fld(raw('obj', W), 'm_parent', 'p')
        iv = raw('iv', L.id)
        idx, val = nx.a[1], nx.a[2]
        n = app('call:GetDepth', raw('obj', sol), ty='i')
        depth = [e.res for e in I.events if e.kind == 'call' and e.name == 'GetDepth' and e.recv is raw('obj', sol)]
        okw = nw is par
        C.ob('path', what + ' (each step goes to the parent)', w, True if okw else False if nw is W else None, clip(nw, 100))
        v = fld(fld(raw('obj', W), 'm_data'), field)
        C.ob('path', what + ' (each entry is the %s of the node reached)' % field, w, entry(val, v), clip(val, 100))
        size = ini.a[0] if ini is not None and ini.op == 'fill' else None
        if size is None or not depth:
            C.ob('path', what + ' (length)', w, None, clip(ini, 100) if ini is not None else '')
            continue
        C.same('path', what + ' (one entry per node)', w, size, add(depth[0], const(extra)))
        sz = [x for x in subterms(idx) if x.op == 'size' and x.a[0] is t]
        i2 = subst(idx, {x: size for x in sz})
        C.same('path', what + ' (filled from the end)', w, i2, sub(sub(size, const(1)), iv))

def run(C):
    C.each(astar, rrt, bidir, meet, hybrid, goaltest, getpath)
