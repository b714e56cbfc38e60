"""Event analysis of the best-first searches: every push on the frontier is examined with the symbolic state and path condition it
happens under: the costs of the pushed node, its owner, the duplicate test it passed; and conversely the path condition of the pushes
must cover every child that has to be queued."""
from lib import *

this = sym('this', 'p')
TECHNIQUE = 'static analysis: path-condition and symbolic-state rules at every frontier push, removal and cost store'
OPQ = ('Push', 'Find', 'Contains', 'Insert', 'AddChild', 'GetNeighborStates', 'GetHeuristicValue', 'Remove', 'Clear', 'SetGoal', 'IdenticalPoses')
PURE = ('Find', 'Contains', 'GetNeighborStates', 'GetHeuristicValue', 'IdenticalPoses', 'AddChild')
H = 'Planner::HybridAStar'

def site(e):
    return '%s:%s' % (rel(e.file), e.line)

def lits(g):
    return tuple(literals([g]))

def at_root(lv, G, n=0):
    """the objects a call may be made on, under the conditions of the call"""
    if lv is None or lv.path or n > 8:
        return {None}
    if lv.root[0] == 'I':
        if entails(G, lv.root[1]):
            return at_root(lv.root[2], G, n + 1)
        if entails(G, not_(lv.root[1])):
            return at_root(lv.root[3], G, n + 1)
        return at_root(lv.root[2], G + (lv.root[1],), n + 1) | at_root(lv.root[3], G + (not_(lv.root[1]),), n + 1)
    return {lv.root[1]} if lv.root[0] == 'O' else {None}

class Search:
    def __init__(s, C, k, name, graph, thiscls=None, hybrid=False):
        s.C, s.k, s.name, s.graph, s.hybrid = C, k, name, graph, hybrid
        kw = {}
        if thiscls:
            kw['thiscls'] = thiscls
            kw['dyn'] = {this: thiscls} if False else None
            kw = {'thiscls': thiscls}
        s.I = C.run(k, opaque=OPQ, nomut=PURE, **kw)
        s.node = sym(C.P.F[k]['ps'][0]['n'], 'p')

    def data(s, S, ptr, cls=None):
        I = s.I
        for c in ([cls] if cls else list(S.H)):
            if c and 'Node<' in c and 'AStarNodeData' in c:
                return fld(I.read(S, I.deref(ptr, c)), 'm_data')
        return None

    def isfield(s, e, name):
        """the event is a call on the named member of this object"""
        lv = e.recvlv
        if lv is None or lv.root[0] != 'O' or lv.root[1] is not this:
            return False
        fs = [p[1] for p in lv.path if p[0] == 'f']
        return fs[:1] == [name]

    def run(s):
        C, I = s.C, s.I
        w = C.where(s.k)
        ev = [e for e in I.events if e.kind == 'call']
        nb = [e for e in ev if e.name == 'GetNeighborStates']
        C.need(len(nb) == 1, '%s: one request for the neighbours' % s.name)
        C.same('expand', s.name + ': the neighbours asked for are those of the expanded state', site(nb[0]), nb[0].args[0], s.state(s.node, nb[0].S))
        ins = [e for e in ev if e.name == 'Insert']
        ok = any(e.args and e.args[0] is s.node and not [l for l in literals(e.guard)] and not e.loops for e in ins)
        part = any(e.args and e.args[0] is s.node for e in ins)
        C.ob('explored', s.name + ': an expanded state is recorded as explored', w, True if ok else False if not part else None if not any(literals(e.guard) for e in ins) else False, 'recorded %s' % ('only when ' + '; '.join(clip_guard(list(literals(e.guard)), 100) for e in ins) if part else 'never'))
        for e in ins:
            if e.args and e.args[0] is not s.node and e.args[0].op == 'alloc':
                C.ob('explored', s.name + ': nothing but the expanded state is recorded as explored', site(e), False, 'records %s' % clip(e.args[0]))
        pushes = [e for e in ev if e.name == 'Push']
        C.need(pushes, s.name + ': nothing is queued')
        for e in pushes:
            s.push(e, ev)
        s.cover(pushes, ev)
        s.inplace(pushes)
        if s.graph:
            for e in [e for e in ev if e.name == 'Remove']:
                nxt = [p for p in pushes if p.seq > e.seq and set(literals(p.guard)) == set(literals(e.guard))]
                C.ob('queue', s.name + ': a queued entry is only removed to be replaced', site(e), True if nxt else None if [p for p in pushes if p.seq > e.seq] else False, 'removed when %s' % clip_guard(list(literals(e.guard)), 150))

    def state(s, ptr, S):
        d = s.data(S, ptr, s.ncls())
        return fld(d, 'state', 'o')

    def ncls(s):
        for e in s.I.events:
            if e.S is not None:
                for c in e.S.H:
                    if c.startswith('Planner::Node<Planner::AStarNodeData<'):
                        return c
        t = s.C.P.F[s.k]['ps'][0]['t']
        return t.replace(' *', '').replace('*', '').strip()

    def push(s, e, ev):
        C, I = s.C, s.I
        w = site(e)
        x = e.args[0]
        if x.op != 'alloc':
            C.ob('cost', s.name + ': what is queued is a node made here', w, None, clip(x))
            return
        d = s.data(e.S, x, s.ncls())
        st_, act = fld(d, 'state', 'o'), fld(d, 'action', 'o')
        pc, tc = fld(d, 'pathCost', 'r'), fld(d, 'totalCost', 'r')
        G = tuple(literals(e.guard))
        # which neighbour
        base = [t for t in subterms(st_) if t.op == 'fld' and t.a[1] == '0' and t.a[0].op in ('vget', 'idx') or t.op == 'fld' and t.a[1] == '0' and any(y.op == 'app' and y.a[0] == 'call:GetNeighborStates' for y in subterms(t))]
        if not base:
            C.ob('cost', s.name + ': the queued node stands for a neighbour reported', w, None, clip(st_))
            return
        tup = base[0].a[0]
        nd = s.data(e.S, s.node, s.ncls())
        want = add(fld(nd, 'pathCost', 'r'), fld(tup, '2', 'r'))
        C.same('cost', s.name + ': a queued child is charged its parent\'s path cost plus the transition cost reported for it', w, pc, want)
        hs = [t for t in subterms(tc) if t.op == 'app' and t.a[0] == 'call:GetHeuristicValue']
        if not hs:
            ok = False if not contains_op(tc, ('unk', 'phi')) else None
            C.ob('cost', s.name + ': the priority includes the heuristic value of the child\'s own state', w, ok, 'priority %s' % clip(tc, 200))
        for h in set(hs):
            C.ob('cost', s.name + ': the heuristic asked is the configured one', w, True if any(t.op == 'fld' and t.a[1] == 'm_heuristic' for t in subterms(h.a[2])) else None)
            C.same('cost', s.name + ': the heuristic value is that of the child\'s own state', w, h.a[-1], st_)
            C.same('cost', s.name + ': the priority is the path cost plus the heuristic value', w, tc, add(pc, h))
        acts = [t for t in subterms(act) if t.op == 'fld' and t.a[0] is tup]
        if act.op == 'fld' and act.a[0] is tup:
            C.ob('cost', s.name + ': the action kept is the one reported with that neighbour', w, act.a[1] == '1', clip(act))
        # owner
        adds = [a for a in ev if a.name == 'AddChild' and a.args and a.args[0] is x]
        good = [a for a in adds if set(literals(a.guard)) == set(G)]
        if not adds:
            C.ob('owner', s.name + ': a queued node is owned by the node it was reached from', w, False, 'the queued node is not added to any node')
        elif not good:
            miss = [a for a in adds if decide_implied(G, and_(*literals(a.guard))) is True]
            C.ob('owner', s.name + ': a queued node is owned by the node it was reached from', w, True if miss else None, 'owned when %s' % clip_guard(list(literals(adds[0].guard)), 150))
        for a in good:
            lv = a.recvlv
            p = at_root(lv, G)
            C.ob('owner', s.name + ': a queued node is owned by the node it was reached from', w, True if p == {s.node} else None if None in p or s.node in p else False, 'owned by %s' % ', '.join(clip(y, 100) for y in p if y is not None))
        # frontier of this search
        C.ob('queue', s.name + ': it is queued in the frontier of this search', w, True if s.isfield(e, 'm_frontier') else None)
        if not s.graph:
            return
        # duplicates
        F, K = s.find(G, x), s.contains(G, x)
        allF = [t for l in G for t in subterms(l) if t.op == 'app' and t.a[0] == 'call:Find' and t.a[-1] is x]
        absent = any(decide_implied(G, eq(f, NULL)) is True for f in set(allF))
        present = [f for f in set(allF) if decide_implied(G, not_(eq(f, NULL))) is True]
        if absent:
            ks = {t for l in G for t in subterms(l) if t.op == 'app' and t.a[0] == 'call:Contains' and t.a[-1] is x}
            notexp = any(decide_implied(G, not_(k)) is True for k in ks)
            isexp = [k for k in ks if decide_implied(G, k) is True]
            C.ob('duplicate', s.name + ': a new state is queued only if it has not been explored', w, True if notexp else False, 'queued when %s' % clip_guard(list(G), 250))
            return
        if present:
            f = present[0]
            q = None
            for t in (y for l in G for y in subterms(l)):
                if t.op == 'fld' and t.a[1] in ('totalCost', 'pathCost') and any(y is f for y in subterms(t)):
                    q = t
            fn = raw('obj', f)
            ok = None
            if q is None:
                ok = False
                why = 'queued over an entry without comparing costs: %s' % clip_guard(list(G), 250)
            else:
                mine = tc if q.a[1] == 'totalCost' else pc
                imp = decide_implied(G, lt(mine, q))
                ok = True if imp is True else False if imp is False else None
                why = 'queued when %s' % clip_guard(list(G), 300)
            C.ob('duplicate', s.name + ': a queued entry is replaced only if it costs strictly more', w, ok, why)
            rem = [r for r in ev if r.name == 'Remove' and r.seq < e.seq and decide_implied(G, and_(*literals(r.guard))) is True]
            good = [r for r in rem if r.args and (any(y is f for y in subterms(r.args[0])) or r.args[0] is x)]
            C.ob('duplicate', s.name + ': the entry replaced is removed before the new one is queued', w, True if good else False if not rem else None, '')
            return
        C.ob('duplicate', s.name + ': a child is queued only after looking for it among the queued', w, False if not allF else None, 'queued when %s' % clip_guard(list(G), 250))

    def find(s, G, x):
        return None

    contains = find

    def cover(s, pushes, ev):
        """every child that must be queued is queued"""
        C, I = s.C, s.I
        w = C.where(s.k)
        for e in pushes:
            x = e.args[0]
            if x.op != 'alloc':
                continue
            own = [p for p in pushes if p.args[0] is x]
            if e is not own[0]:
                continue
            head = set()
            for p in own:
                for l in literals(p.guard):
                    if not any(t is x for t in subterms(l)) and any(t.op == 'iv' for t in subterms(l)) and not any(t.op == 'app' and t.a[0] in ('call:Find', 'call:Contains', 'call:IdenticalPoses') for t in subterms(l)):
                        head.add(l)
            L = [I.loops[i] for i in ([tuple(e.loops)] if tuple(e.loops) in I.loops else []) ]
            loopc = tuple(literals([I.loops[tuple(e.loops)].cond])) if L and I.loops[tuple(e.loops)].cond is not None else ()
            fs = {t for p in own for l in literals(p.guard) for t in subterms(l) if t.op == 'app' and t.a[0] == 'call:Find' and t.a[-1] is x}
            ks = {t for p in own for l in literals(p.guard) for t in subterms(l) if t.op == 'app' and t.a[0] == 'call:Contains' and t.a[-1] is x}
            if not s.graph:
                need = [('every child is queued', loopc)]
            else:
                need = []
                if len(fs) == 1 and len(ks) <= 1:
                    f = list(fs)[0]
                    need.append(('a child neither queued nor explored is queued', loopc + (eq(f, NULL),) + tuple(not_(k) for k in ks)))
                    if not s.hybrid:
                        qs = {t for p in own for l in literals(p.guard) for t in subterms(l) if t.op == 'fld' and t.a[1] in ('totalCost', 'pathCost') and any(y is f for y in subterms(t))}
                        if len(qs) == 1:
                            q = list(qs)[0]
                            d = s.data(own[-1].S, x, s.ncls())
                            mine = fld(d, q.a[1], 'r')
                            need.append(('a child cheaper than its queued entry replaces it', loopc + (not_(eq(f, NULL)), lt(mine, q)) + tuple(not_(k) for k in ks)))
                        elif not qs:
                            C.ob('cover', s.name + ': a child cheaper than its queued entry replaces it', w, False if all(decide_implied(tuple(literals(p.guard)), eq(f, NULL)) is True for p in own) else None, 'no push when the state is already queued')
            for what, hyp in need:
                res = None
                for p in own:
                    r = decide_implied(hyp, and_(*literals(p.guard)))
                    if r is True:
                        res = True
                        break
                    if r is False and res is None:
                        res = False
                    if r is None:
                        res = None if res is not True else res
                if res is False and len(own) > 2:
                    res = None
                C.ob('cover', s.name + ': ' + what, w, res, 'queued only when %s' % ' or '.join(clip_guard(list(literals(p.guard)), 200) for p in own))

    def inplace(s, pushes):
        C, I = s.C, s.I
        n = 0
        for e in I.events:
            if e.kind == 'store' and e.recvlv is not None and e.recvlv.root[0] == 'O':
                fs = [p[1] for p in e.recvlv.path if p[0] == 'f']
                if fs and fs[-1] in ('pathCost', 'totalCost'):
                    n += 1
                    p = e.recvlv.root[1]
                    late = p.op == 'alloc' and any(q.seq < e.seq and q.args[0] is p and not unsat(tuple(literals(q.guard)) + tuple(literals(e.guard))) for q in pushes)
                    C.ob('inplace', s.name + ': costs are only written to a node not yet queued', site(e), True if p.op == 'alloc' and not late else False, 'writes %s of %s' % (fs[-1], clip(p)))
        C.count('cost stores', n)

def expands(C):
    done = 0
    for k in sorted(C.P.F):
        f = C.P.F[k]
        c = f.get('cls') or ''
        if f['n'] == 'Expand' and f.get('body') and len(f['ps']) == 1 and (c.startswith('Planner::AStar<') or 'AStar' in c and c.startswith('Planner::')):
            args = c
            graph = ', true,' in c or c.endswith(', true>')
            if ', false,' in c:
                graph = False
            hyb = 'HybridAStar::State' in c
            nm = ('Hybrid A*' if hyb else 'bidirectional A*' if 'ExploredMap' in c else 'A*') + ('' if graph else ' tree search')
            try:
                Search(C, k, nm, graph, thiscls=H + '::GraphSearch' if hyb else None, hybrid=hyb).run()
            except (AnchorError, Undecided) as ex:
                C.ob('expand', '%s: %s' % (nm, ex), C.where(k), None)
            done += 1
    C.need(done >= 3, 'searches')

def explored(C):
    """the explored sets"""
    n = 0
    for k in sorted(C.P.F):
        f = C.P.F[k]
        c = f.get('cls') or ''
        if not (c.startswith('Planner::Explored<') or c.startswith('Planner::ExploredMap<')) or not f.get('body'):
            continue
        if f['n'] == 'Contains' and len(f['ps']) == 1:
            I = C.run(k)
            p = sym(f['ps'][0]['n'], 'p')
            has = [t for t in subterms(I.ret) if t.op == 'has']
            if not has:
                C.ob('explored', 'membership in the explored set', C.where(k), None, clip(I.ret))
                continue
            key = has[0].a[1]
            ok = isstate(key, p)
            C.ob('explored', 'membership in the explored set is that of the node\'s state', C.where(k), True if ok else False if key.op == 'fld' else None, clip(key))
            C.same('explored', 'a node counts as explored exactly when its state is in the set', C.where(k), I.ret, has[0])
            n += 1
        if f['n'] == 'Insert' and len(f['ps']) == 1:
            I = C.run(k)
            p = sym(f['ps'][0]['n'], 'p')
            adds = [t for h in I.S.H.values() for t in subterms(h) if t.op in ('ins', 'mset')]
            if not adds:
                idle = not I.S.H and not any(e.kind == 'call' for e in I.events)
                C.ob('explored', 'recording an explored state adds it', C.where(k), False if idle else None, 'no insertion')
                continue
            t = adds[0]
            key = t.a[1]
            C.ob('explored', 'recording an explored node adds its state', C.where(k), True if isstate(key, p) else False if key.op == 'fld' else None, clip(key))
            if t.op == 'mset' or 'ExploredMap' in c:
                v = [y for y in t.a[2:] if isinstance(y, T)]
                C.ob('explored', 'the explored map leads from a state to its own node', C.where(k), True if v and v[0] is p else None, clip(t))
            n += 1
    C.need(n, 'no explored set')

def isstate(t, p):
    return t.op == 'fld' and t.a[1] == 'state' and any(y is p for y in subterms(t)) or t.op == 'st' and False

def order(C):
    n = 0
    for k in sorted(C.P.F):
        f = C.P.F[k]
        c = f.get('cls') or ''
        if f['n'] != 'operator()' or not f.get('body'):
            continue
        if c.endswith('::CompareNode') and len(f['ps']) == 2:
            I = C.run(k)
            l, r = [raw('obj', sym(p['n'], 'p')) for p in f['ps']]
            q = lambda o: fld(fld(o, 'm_data'), 'totalCost', 'r')
            C.same('order', 'the frontier puts the node of lower total cost first', C.where(k), I.ret, lt(q(r), q(l)))
            n += 1
        elif c.endswith('::EqualNode') and len(f['ps']) == 2:
            I = C.run(k)
            l, r = [sym(p['n'], 'p') for p in f['ps']]
            bad = [t for t in subterms(I.ret) if t.op == 'fld' and t.a[1] in ('pathCost', 'totalCost', 'action', 'm_parent')]
            both = all(any(t.op == 'fld' and t.a[1] == 'state' and any(y is p for y in subterms(t)) for t in subterms(I.ret)) for p in (l, r))
            C.ob('order', 'queued nodes are the same entry exactly when their states are', C.where(k), False if bad else True if both else None, clip(I.ret, 150))
            n += 1
        elif c.endswith('::HashNode') and len(f['ps']) == 1:
            I = C.run(k)
            bad = [t for t in subterms(I.ret) if t.op == 'fld' and t.a[1] in ('pathCost', 'totalCost', 'action', 'm_parent')]
            C.ob('order', 'the frontier hashes a node by its state', C.where(k), False if bad or I.ret is sym(f['ps'][0]['n'], 'p') else True, clip(I.ret, 150))
            n += 1
    C.need(n, 'no node order')

def meet(C):
    for k in sorted(C.P.F):
        f = C.P.F[k]
        if f['n'] != 'FindIntersection' or not f.get('body') or len(f['ps']) != 4:
            continue
        I = C.run(k)
        w = C.where(k)
        ps = [p['n'] for p in f['ps']]
        nodeA = sym(ps[0], 'p')
        sa, sb = I.S.mem.get(key(I, ps[1])), I.S.mem.get(key(I, ps[2]))
        best = I.S.mem.get(key(I, ps[3]))
        if best is None and not any(e.kind == 'call' and e.S is None for e in I.events):
            best = sym(ps[3], 'r')
        C.need(best is not None and (sa is not None or sb is not None), 'the best meeting is updated')
        every = [t for r in (best, sa, sb) if r is not None for t in subterms(r)]
        has = [t for t in every if t.op == 'has']
        C.need(has, 'the explored states of the other search are looked up')
        h = has[0]
        C.ob('meet', 'a meeting is a state the other search explored', w, True if isstate(h.a[1], nodeA) and contains_sym(h.a[0], ps[2]) else False if contains_sym(h.a[0], ps[1]) else None, clip(h))
        nodeB = app('mget', h.a[0], h.a[1], ty='p')
        pa = fld(fld(raw('obj', nodeA), 'm_data'), 'pathCost', 'r')
        gets = {t for t in every if t.op == 'app' and t.a[0] == 'mget'}
        if len(gets) != 1:
            C.ob('meet', 'meeting node', w, None, clip(best))
            continue
        nb = list(gets)[0]
        pb = fld(fld(raw('obj', nb), 'm_data'), 'pathCost', 'r')
        b0 = sym(ps[3], 'r')
        cand = add(pa, pb)
        better = and_(h, lt(cand, b0))
        C.same('meet', 'the best meeting cost is lowered to the sum of both path costs exactly when that is lower', w, best, ite(better, cand, b0))
        for nm, s_, want in (('this', sa, nodeA), ('other', sb, nb)):
            if s_ is None:
                C.ob('meet', 'the %s search ends in the meeting node' % nm, w, False, 'not recorded')
                continue
            sol = fld(s_, 'm_solutionNode', 'p')
            n_ = ps[1] if nm == 'this' else ps[2]
            C.same('meet', 'the %s search ends in the meeting node exactly when it is the best so far' % nm, w, sol, ite(better, want, fld(sym(n_, 'o'), 'm_solutionNode', 'p')))

def key(I, n):
    for kk in I.S.mem:
        if kk[0] == 'P' and kk[1] == n:
            return kk

def contains_sym(t, n):
    return any(x.op == 'sym' and x.a[0] == n for x in subterms(t))

def run(C):
    C.each(expands, explored, order, meet)
