"""Freshness analysis: within one query, every consumer of the start, the goal or derived goal/map data is preceded on every path by the
step that hands it the current value; the values handed over are traced to the members set by the caller."""
from lib import *
from rules.c03 import opaque, method, rets, arms, PURE, HOP, HPURE, site

this = sym('this', 'p')
me = raw('obj', this)
TECHNIQUE = 'static analysis: must-precede and value-origin rules over the symbolic event trace of each query'
INIT, GOAL = fld(me, 'm_init'), fld(me, 'm_goal')

def extra(e):
    """conditions of an event other than the planner being initialised"""
    return [l for l in literals(e.guard) if not (l.op == 'fld' and l.a[1] == 'isInitialized')]

def ptr(e):
    lv = e.recvlv
    return lv.root[1] if lv is not None and lv.root[0] == 'O' and not [p for p in lv.path if p[0] == 'f'] else None

def member(e):
    lv = e.recvlv
    if lv is None or lv.root[0] != 'O' or lv.root[1] is not this:
        return None
    return tuple(p[1] for p in lv.path if p[0] == 'f')

def agree(C, rule, what, where, got, want):
    """value equality, field by field for structures"""
    r = alike(got, want)
    return C.ob(rule, what, where, r, '' if r else 'it is %s, not %s' % (clip(got, 140), clip(want, 100)))

def alike(got, want):
    if got is want:
        return True
    if got.op == 'st':
        r = [alike(x, fld(want, n, ty(x))) for n, x in got.a[2]]
        if False in r:
            return False
        return True if r and None not in r else None
    if got.op == 'fld' and want.op == 'fld':
        return False if plain(got) and plain(want) else None
    if got.op == 'app' and want.op == 'app' and got.a[0] == want.a[0] and len(got.a) == len(want.a):
        r = [True if x is y else alike(x, y) if isinstance(x, T) and isinstance(y, T) else False for x, y in zip(got.a[2:], want.a[2:])]
        return False if False in r else None if None in r else True
    return decide_same(got, want, ())[0]

def plain(t):
    while t.op == 'fld' or t.op == 'obj':
        t = t.a[0]
    return t.op == 'sym'

def cleared(t, base):
    """the container was emptied since it was last seen as base"""
    n = 0
    while t.op == 'app' and t.a[0].startswith('mut:') and n < 50:
        if t.a[0] == 'mut:Clear':
            return True
        t = t.a[2]
        n += 1
    if t is base:
        return False
    if t.op == 'emp' or t.op == 'st' or t.op == 'vec':
        return True
    return None

def always(e):
    x = extra(e)
    if not x and not e.loops:
        return True
    if any(y.op == 'fld' and y.a[1] == 'm_goal' for l in x for y in subterms(l)):
        return None
    return False if x else None

class Q:
    def __init__(s, C, k, nm):
        s.C, s.k, s.nm = C, k, nm
        s.I = C.run(k, opaque=opaque(C), nomut=PURE)
        s.ev = [e for e in s.I.events if e.kind == 'call']

    def given(s, heur, goal, who):
        """the heuristic of a search has the goal before its first use"""
        C = s.C
        w = C.where(s.k)
        sets = [e for e in s.ev if e.name == 'SetGoal' and ptr(e) is heur]
        what = '%s: %sheuristic is given the current goal' % (s.nm, who)
        if not sets:
            unknown = [e for e in s.ev if e.name == 'SetGoal' and ptr(e) is not None and not plain(ptr(e))]
            C.ob('goal', what, w, None if unknown else False, 'no call of SetGoal on it')
            return
        full = [e for e in sets if always(e)]
        if not full:
            r = [always(e) for e in sets]
            C.ob('goal', what, site(sets[0]), False if all(x is False for x in r) else None, 'only under %s' % clip_guard(extra(sets[0]), 150))
            return
        last = max(sets, key=lambda e: e.seq)
        agree(C, 'goal', what, site(last), last.args[0], goal)
        uses = [e for e in s.ev if e.name == 'GetHeuristicValue' and ptr(e) is heur or e.name == 'Expand']
        early = [e for e in uses if e.seq < full[0].seq]
        C.ob('goal', what + ' before it is consulted', site(full[0]), not early, 'consulted before at %s' % site(early[0]) if early else '')

    def root(s, path, start, who):
        """the queue starts with one node, for the start state, after being emptied"""
        C, I = s.C, s.I
        P = [e for e in s.ev if e.name == 'Push' and member(e) == path + ('m_frontier',) and not e.loops]
        what = '%s: %ssearch starts from the current start' % (s.nm, who)
        if not P:
            C.ob('start', what, C.where(s.k), None, 'no node is queued before the loop')
            return
        base = me
        for p in path:
            base = fld(base, p)
        for e in P:
            r = cleared(e.recv, fld(base, 'm_frontier'))
            C.ob('start', '%s: %squeue is emptied before the query' % (s.nm, who), site(e), r, 'nodes of an earlier query stay queued')
            n = e.args[0]
            cls = next((c for c in e.S.H if 'Node<' in c and 'AStarNodeData' in c), None)
            if cls is None or n.op != 'alloc':
                C.ob('start', what, site(e), None, clip(n, 100))
                continue
            data = fld(I.read(e.S, I.deref(n, cls)), 'm_data')
            agree(C, 'start', what, site(e), fld(data, 'state'), start)
            c = fld(data, 'pathCost', 'r')
            C.same('start', '%s: %sstart costs nothing' % (s.nm, who), site(e), c, const(0))
        for e in s.ev:
            if e.name == 'Insert' and member(e) == path + ('m_explored',) and not e.loops:
                C.ob('start', '%s: %sexplored set is emptied before the query' % (s.nm, who), site(e), cleared(e.recv, fld(base, 'm_explored')), 'states explored by an earlier query count as explored')
        fst = [e for e in s.ev if e.name in ('Expand',) and e.loops]
        for e in fst[:1]:
            # whatever the loop consults was emptied in this query
            t = I.read(e.S, I.deref(this, C.P.F[s.k]['cls']))
            for p in path:
                t = fld(t, p)
            x = fld(t, 'm_explored')
            if x.op == 'phi':
                L = I.loops.get(x.a[0][0])
                x = L.init.get(x.a[0][1:], x) if L else x
            C.ob('start', '%s: %sexplored set is emptied before the query' % (s.nm, who), C.where(s.k), cleared(x, fld(base, 'm_explored')), 'states explored by an earlier query count as explored')

def astar(C):
    ks = method(C, 'Planner::AStar', 'SearchPath')
    C.need(ks, 'no AStar::SearchPath')
    for k in ks:
        q = Q(C, k, 'A*')
        q.given(fld(me, 'm_heuristic', 'p'), GOAL, 'its ')
        q.root((), INIT, 'the ')

def bidir(C):
    ks = method(C, 'Planner::BidirectionalAStar', 'SearchPath')
    C.need(ks, 'no BidirectionalAStar::SearchPath')
    q = Q(C, ks[0], 'Bidirectional A*')
    for m, a, b, who in (('m_fSearch', INIT, GOAL, 'the forward '), ('m_rSearch', GOAL, INIT, 'the reverse ')):
        q.given(fld(fld(me, m), 'm_heuristic', 'p'), b, who)
        q.root((m,), a, who)
    ups = {}
    for e in q.ev:
        if e.name == 'Update':
            ups.setdefault(ptr(e), []).append(e)
    fa, ra = fld(me, 'm_fAverageHeuristic', 'p'), fld(me, 'm_rAverageHeuristic', 'p')
    first = min([e.seq for e in q.ev if e.name == 'GetHeuristicValue' and len(e.stack) == 1] or [1 << 60])
    for p, a, b, who in ((fa, INIT, GOAL, 'forward'), (ra, GOAL, INIT, 'reverse')):
        what = 'Bidirectional A*: the %s average heuristic is updated for the current start and goal' % who
        if p not in ups:
            C.ob('average', what, C.where(ks[0]), False if ups or not any(e.name == 'SetGoal' and e.seq < first and 'Average' in str(e.fn) for e in q.ev) else None, 'it is not updated')
            continue
        e = ups[p][-1]
        ok = [l for l in extra(e) if not any(y in (fa, ra) for y in subterms(l))]
        C.ob('average', what, site(e), False if ok else e.seq < first, 'only under %s' % clip_guard(ok, 120) if ok else 'consulted before')
        if len(e.args) == 2:
            agree(C, 'average', what + ' (start of that direction)', site(e), e.args[0], a)
            agree(C, 'average', what + ' (goal of that direction)', site(e), e.args[1], b)
    for k in sorted(C.P.F):
        f = C.P.F[k]
        if f['n'] == 'Update' and (f.get('cls') or '').startswith('Planner::AverageHeuristic<') and f.get('body') and len(f['ps']) == 2:
            I = C.run(k, nomut=('SetGoal', 'GetHeuristicValue'))
            i, g = [sym(p['n'], 'o') for p in f['ps']]
            w = C.where(k)
            tg, ti = fld(me, 'm_toGoalHeuristic', 'p'), fld(me, 'm_toInitHeuristic', 'p')
            ev = [e for e in I.events if e.kind == 'call']
            for h, v, nm in ((tg, g, 'the goal'), (ti, i, 'the start')):
                ss = [e for e in ev if e.name == 'SetGoal' and ptr(e) is h]
                us = [e for e in ev if e.name == 'GetHeuristicValue' and ptr(e) is h]
                what = 'average heuristic: the heuristic towards %s is given it' % nm
                if not ss:
                    C.ob('average', what, w, False, 'no call of SetGoal on it')
                    continue
                C.ob('average', what, site(ss[-1]), False if literals(ss[-1].guard) or any(u.seq < ss[0].seq for u in us) else True, 'conditional or after its use')
                agree(C, 'average', what, site(ss[-1]), ss[-1].args[0], v)
            use = [e for e in ev if e.name == 'GetHeuristicValue']
            o = I.read(I.S, I.deref(this, f['cls']))
            if len(use) == 1:
                C.ob('average', 'average heuristic: its offset is half the estimate from goal to start', site(use[0]), True if ptr(use[0]) is ti and alike(use[0].args[0], g) else False if ptr(use[0]) in (ti, tg) and alike(use[0].args[0], g) is not None else None, clip(use[0].args[0], 60))
                C.same('average', 'average heuristic: its offset is half the estimate from goal to start', w, fld(o, 'm_constant', 'r'), mul(const_r(1, 2), use[0].res))

def const_r(a, b):
    from fractions import Fraction
    return const(Fraction(a, b))

def rrt(C):
    for c in ('Planner::RRT', 'Planner::RRTStar'):
        ks = method(C, c, 'SearchPath')
        C.need(ks, 'no %s::SearchPath' % c)
        nm = c.split('::')[-1]
        I = C.run(ks[0], opaque=opaque(C), nomut=PURE)
        P = [e for e in I.events if e.kind == 'call' and e.name == 'CreateRootNode']
        C.need(P, nm + ': no root')
        for e in P:
            C.ob('start', '%s: the tree starts from the current start in every query' % nm, site(e), True if not literals(e.guard) and not e.loops else False if literals(e.guard) else None, 'only under %s' % clip_guard(list(literals(e.guard)), 120))
            agree(C, 'start', '%s: the tree starts from the current start' % nm, site(e), e.args[0], INIT)
            C.ob('start', '%s: the tree is emptied before the query' % nm, site(e), cleared(e.recv, fld(me, 'm_tree')), 'nodes of an earlier query stay in the tree')

def setters(C):
    for n, fd in (('SetInitState', 'm_init'), ('SetGoalState', 'm_goal')):
        ks = [k for k in sorted(C.P.F) if C.P.F[k]['n'] == n and (C.P.F[k].get('cls') or '').startswith('Planner::PathPlanner<') and C.P.F[k].get('body')]
        C.need(ks, 'no PathPlanner::' + n)
        for k in ks:
            I = C.run(k)
            o = I.read(I.S, I.deref(this, C.P.F[k]['cls']))
            for x in ('m_init', 'm_goal'):
                want = sym(C.P.F[k]['ps'][0]['n'], 'o') if x == fd else fld(me, x)
                agree(C, 'set', '%s sets %s' % (n, 'the %s of the next query' % ('start' if fd == 'm_init' else 'goal') if x == fd else 'nothing else'), C.where(k), fld(o, x), want)

def forwards(C):
    """SetGoal of every heuristic reaches the heuristics it is made of"""
    n = 0
    for k in sorted(C.P.F):
        f = C.P.F[k]
        c = f.get('cls') or ''
        if f['n'] != 'SetGoal' or not f.get('body') or len(f['ps']) != 1 or not c.startswith('Planner::'):
            continue
        g = sym(f['ps'][0]['n'], 'o')
        w = C.where(k)
        I = C.run(k, nomut=('SetGoal',))
        ss = [e for e in I.events if e.kind == 'call' and e.name == 'SetGoal']
        if 'Combined' in c:
            n += 1
            what = 'combined heuristic: each component is given the goal'
            if not ss:
                C.ob('forward', what, w, False, 'no call of SetGoal')
                continue
            e = ss[-1]
            L = I.loops.get(e.loops[-1:] and tuple(e.loops)) if e.loops else None
            p = ptr(e)
            C.ob('forward', what, site(e), one_each(I, e, fld(me, 'm_heuristics')), 'not called for every component')
            agree(C, 'forward', what + ' (the goal itself)', site(e), e.args[0], g)
        elif 'Adapter' in c:
            n += 1
            what = 'adapted heuristic: the underlying heuristic is given the goal'
            s2 = [e for e in ss if ptr(e) is fld(me, 'm_heuristic', 'p')]
            if not s2:
                C.ob('forward', what, w, False, 'no call of SetGoal on it')
                continue
            e = s2[-1]
            C.ob('forward', what, site(e), False if literals(e.guard) else True, 'conditional')
            a = e.args[0]
            mentions = g in set(subterms(a))
            C.ob('forward', what + ' (the adapted goal)', site(e), True if mentions else False, clip(a, 80))
            if 'HybridAStar' in c:
                agree(C, 'forward', 'Hybrid A*: the heuristics are given the continuous pose of the goal', site(e), a, fld(g, 'continuousPose'))
        else:
            n += 1
            o = I.read(I.S, I.deref(this, c))
            agree(C, 'forward', '%s: the goal is recorded' % c.split('::')[-1].split('<')[0], w, fld(o, 'm_goal'), g)
    C.need(n >= 3, 'SetGoal implementations')
    for k in sorted(C.P.F):
        f = C.P.F[k]
        c = f.get('cls') or ''
        if f['n'] == 'GetHeuristicValue' and f.get('body') and len(f['ps']) == 1:
            s_ = sym(f['ps'][0]['n'], 'o')
            if c.startswith('Planner::AStarConcreteHeuristicFcn<'):
                I = C.run(k)
                t = I.ret
                if t.op == 'callfn' and len(t.a) >= 3 or t.op == 'app' and t.a[0] == 'callfn':
                    a = [x for x in t.a if isinstance(x, T)]
                    r = [alike(x, y) for x, y in zip(a[-2:], (s_, GOAL))]
                    C.ob('use', 'function heuristic: evaluated between the state and the current goal', C.where(k), False if False in r else None if None in r else True, clip(t, 120))
                else:
                    C.ob('use', 'function heuristic: evaluated between the state and the current goal', C.where(k), None, clip(t, 120))
            elif c.startswith('Planner::AStarHeuristicAdapter<'):
                I = C.run(k, opaque=('GetHeuristicValue',), nomut=('GetHeuristicValue',))
                u = [e for e in I.events if e.kind == 'call' and e.name == 'GetHeuristicValue' and ptr(e) is fld(me, 'm_heuristic', 'p')]
                if len(u) == 1:
                    C.ob('use', 'adapted heuristic: the underlying value of the adapted state', C.where(k), True if s_ in set(subterms(u[0].args[0])) else False, clip(u[0].args[0], 80))
                    C.same('use', 'adapted heuristic: the underlying value is passed on', C.where(k), I.ret, u[0].res)

def one_each(I, e, vec):
    """the call happens once for each element of the vector"""
    p = ptr(e)
    if p is None:
        return None
    subs = set(subterms(p))
    at = [t for t in subs if t.op == 'vget' and t.a[0] is vec]
    n = raw('size', vec)
    if not e.loops:
        return False if at and vec in subs and not any(t.op == 'iv' for t in subs) else None
    L = next((x for lid, x in I.loops.items() if lid == tuple(e.loops)), None)
    if L is None or len(at) != 1:
        return None
    iv = raw('iv', L.id)
    if any(x[0] != 'normal' for x in L.exits):
        return False
    lits = list(literals(e.guard))
    idx = at[0].a[1]
    fwd, bwd = idx is iv, decide_same(idx, sub(sub(n, const(1)), iv), ())[0] is True
    if not fwd and not bwd:
        return False if iv not in set(subterms(idx)) else None
    rest = [l for l in lits if decide_same(l, lt(iv, n), ())[0] is not True]
    if len(rest) == len(lits):
        return False if len(lits) == 1 and iv in set(subterms(lits[0])) and decide_same(lits[0], lt(iv, n), ())[0] is False else None
    return True if not rest else False

def hybrid(C):
    H = 'Planner::HybridAStar'
    ks = method(C, H, 'SearchPath')
    C.need(ks, 'no HybridAStar::SearchPath')
    I = C.run(ks[0], opaque=HOP, nomut=HPURE)
    ev = [e for e in I.events if e.kind == 'call']
    S = [e for e in ev if e.name == 'SearchPath' and member(e) == ('m_graphSearch',)]
    C.need(S, 'Hybrid A* runs no graph search')
    w = C.where(ks[0])
    s0 = min(e.seq for e in S)
    def before(what, es):
        if not es:
            C.ob('refresh', what, w, False, 'never done in a query')
            return None
        ok = [e for e in es if e.seq < s0]
        if not ok:
            C.ob('refresh', what, site(es[0]), False, 'only after the graph search')
            return None
        full = [e for e in ok if not extra(e) and not e.loops]
        x = (full or ok)[-1]
        C.ob('refresh', what, site(x), True if full else always(ok[-1]), 'only under %s' % clip_guard(extra(x), 150))
        return x
    e = before('Hybrid A*: the obstacle heuristic is recomputed for the current goal and map', [e for e in ev if e.name == 'Update' and ptr(e) is fld(me, 'm_obstacleHeuristic', 'p')])
    if e is not None and e.args:
        agree(C, 'refresh', 'Hybrid A*: the obstacle heuristic is recomputed for the current goal', site(e), e.args[0], GOAL)
    before('Hybrid A*: the Voronoi field is brought up to date with the current map', [e for e in ev if e.name == 'Update' and ptr(e) is fld(me, 'm_gvd', 'p')])
    prop_ = fld(me, 'm_propagator', 'p')
    e = before('Hybrid A*: the graph search is given the current start', [e for e in ev if e.name == 'SetInitState' and member(e) == ('m_graphSearch',)])
    if e is not None:
        derive(C, ev, e, 'start', INIT)
    e = before('Hybrid A*: the graph search is given the current goal', [e for e in ev if e.name == 'SetGoalState' and member(e) == ('m_graphSearch',)])
    if e is not None:
        derive(C, ev, e, 'goal', GOAL)
    e = before('Hybrid A*: the goal-directed shot is given the current goal', [e for e in ev if e.name == 'SetGoalState' and ptr(e) is prop_])
    if e is not None and e.args:
        agree(C, 'refresh', 'Hybrid A*: the goal-directed shot is given the current goal', site(e), e.args[0], GOAL)
    P = H + '::StatePropagator'
    for n in ('SetGoalState', 'CreateStateFromPose'):
        for k in sorted(C.P.F):
            f = C.P.F[k]
            if f['n'] == n and f.get('cls') == P and f.get('body') and len(f['ps']) == 1:
                J = C.run(k, opaque=('DiscretizePose',), nomut=('DiscretizePose',))
                p = sym(f['ps'][0]['n'], 'o')
                agree(C, 'refresh', 'Hybrid A*: %s keeps the given pose' % n, C.where(k), fld(J.ret, 'continuousPose'), p)
                d = [e for e in J.events if e.kind == 'call' and e.name == 'DiscretizePose']
                if len(d) == 1:
                    agree(C, 'refresh', 'Hybrid A*: %s discretises the given pose' % n, C.where(k), d[0].args[0], p)
                if n == 'SetGoalState':
                    o = J.read(J.S, J.deref(this, P))
                    agree(C, 'refresh', 'Hybrid A*: the shot aims at the given goal', C.where(k), fld(fld(o, 'm_goalState'), 'continuousPose'), p)

def derive(C, ev, e, nm, want):
    """the state handed to the graph search was made from the pose"""
    a = e.args[0]
    what = 'Hybrid A*: the %s of the graph search is made from the current %s' % (nm, nm)
    src = [x for x in ev if x.res is a and x.args]
    if src:
        agree(C, 'refresh', what, site(e), src[-1].args[0], want)
    else:
        m = set(subterms(a))
        C.ob('refresh', what, site(e), None if want in m else False if not any(x.op == 'app' for x in m) else None, clip(a, 100))

def wiring(C):
    H = 'Planner::HybridAStar'
    ks = [k for k in sorted(C.P.F) if C.P.F[k]['n'] == 'Initialize' and C.P.F[k].get('cls') == H and C.P.F[k].get('body')]
    C.need(ks, 'no HybridAStar::Initialize')
    I = C.run(ks[0], opaque=('Initialize', 'Build', 'GetOccupancyMap', 'GetStateSpace', 'GetParameters', 'Add', 'GetVoronoiDistanceMap'), nomut=('GetOccupancyMap', 'GetStateSpace', 'GetParameters', 'GetVoronoiDistanceMap'))
    o = I.read(I.S, I.deref(this, H))
    w = C.where(ks[0])
    ev = [e for e in I.events if e.kind == 'call']
    gs = [e for e in ev if e.name == 'Initialize' and member(e) == ('m_graphSearch',)]
    ps = [e for e in ev if e.name == 'Initialize' and ptr(e) is fld(me, 'm_propagator', 'p')]
    add_ = [e for e in ev if e.name == 'Add']
    if gs and add_:
        kids = [a for e in add_ for a in e.args]
        ob_, nh = [e.args[0] for e in I.events if e.kind == 'store' and member(e) == ('m_obstacleHeuristic',)], [e.args[0] for e in I.events if e.kind == 'store' and member(e) == ('m_nonHoloHeuristic',)]
        for nm, st_ in (('obstacle', ob_), ('non-holonomic', nh)):
            C.ob('wiring', 'Hybrid A*: the %s heuristic it refreshes is the one its search consults' % nm, w, True if st_ and st_[-1] in kids else None if not st_ else False if all(x.op in ('alloc', 'app') for x in kids) else None, clip(st_[-1], 80) if st_ else '')
        h = gs[0].args[1] if len(gs[0].args) > 1 else None
        comb = ptr(add_[0])
        ads = [e for e in I.events if e.kind == 'ctor' and 'Adapter' in str(e.name) and e.recvlv is not None and e.recvlv.root[1] is h]
        if h is not None and ads:
            C.ob('wiring', 'Hybrid A*: its search consults the combined heuristic', site(gs[0]), True if comb in ads[0].args else None, '')
        C.ob('wiring', 'Hybrid A*: its search expands with its own propagator', site(gs[0]), True if gs[0].args[0] is fld(me, 'm_propagator', 'p') else None, clip(gs[0].args[0], 80))
    gv = [e.args[0] for e in I.events if e.kind == 'store' and member(e) == ('m_gvd',)]
    for e, nm in ((ps[0] if ps else None, 'propagator'), (next((x for x in ev if x.name == 'Initialize' and member(x) == ('m_smoother',)), None), 'smoother')):
        if e is not None and gv:
            C.ob('wiring', 'Hybrid A*: the Voronoi field it updates is the one the %s reads' % nm, site(e), True if gv[-1] in e.args else False if not any(a is fld(me, 'm_gvd', 'p') and 0 for a in e.args) and all(a.op in ('alloc', 'app', 'sym', 'c', 'fld', 'mul', 'poly', 'pow') for a in e.args) else None, clip(gv[-1], 60))

def run(C):
    from rules import c27, c29
    C.each(astar, bidir, rrt, setters, forwards, hybrid, wiring, shared(c29.update, 'reset', 'field'), shared(c27.order, 'order'), shared(c27.field, 'field'))
