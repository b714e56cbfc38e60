"""Progress analysis of every loop of the library: each way around a loop must move the quantity its exit condition tests (counter against a
bound the loop does not change, queue from which one entry is taken, cursor or parent link that advances); for the iterative planners the
counter is moreover tied to the configured budget."""
from lib import *
from rules.c03 import method, arms
from rules.c11 import Map

this = sym('this', 'p')
me = raw('obj', this)
TECHNIQUE = 'static analysis: loop progress (ranking) rules on the symbolic transfer function of every loop'
OPQ = ('IsPathSafe', 'IsStateValid', 'IsInsideMap', 'WorldPositionToGridCell', 'GridCellToWorldPosition', 'GetNearestObstacleCell', 'GetNearestVoronoiEdgeCell', 'IsSolution', 'IdenticalPoses',
       'GetHeuristicValue', 'SetGoal', 'GetNeighborStates', 'AddChild', 'Expand', 'GetDepth', 'Connect', 'Truncate', 'IsPathValid', 'SampleUniform', 'GetLength', 'GetFinalState', 'Interpolate',
       'CalculateCurvatureTerm', 'GetDistanceToObstacle', 'IsOccupied', 'GetPathCost', 'Update', 'Smooth', 'GetOptimalPath', 'GetShortestPath', 'GetMotionLengths', 'GetPath', 'GetGoalArray', 'ComputeCost', 'GetCost')
MUT = ('Truncate', 'Update', 'Smooth', 'GetOptimalPath', 'GetShortestPath', 'GetMotionLengths', 'GetPath', 'GetGoalArray', 'ComputeCost', 'GetCost')
GRIDS = (('Planner::GVD::ObstacleDistanceMap', 'm_obstacle'), ('Planner::GVD::VoronoiDistanceMap', 'm_edge'))
BOX = ('Planner::Frontier<', 'Planner::Tree<', 'Planner::Explored')
READ = ('Find', 'Contains', 'Empty', 'Top', 'Size', 'GetNearestNode', 'GetNearestNodes')

def boxed(C):
    return tuple({f.get('q') for f in C.P.F.values() if (f.get('cls') or '').startswith(BOX)})

def has_loop(b):
    st_ = [b]
    while st_:
        x = st_.pop()
        if isinstance(x, dict):
            if x.get('k') in ('while', 'for', 'do', 'forrange', 'rangefor') or str(x.get('k', '')).lower() in ('whilestmt', 'forstmt', 'dostmt', 'cxxforrangestmt'):
                return True
            st_ += list(x.values())
        elif isinstance(x, list):
            st_ += x
    return False

def lib_fn(C, k):
    f = C.P.F[k]
    w = C.where(k)
    return f.get('body') and w.startswith('planner/src/') and '/debug/' not in w

def where(C, k, L):
    return '%s:%s' % (rel(L.file) if L.file else C.where(k).split(':')[0], L.line)

def deltas(L, ph, nx):
    """how each way around changes a carried number: list of (change, guard); None if not understood"""
    r = []
    bg = tuple(literals(list(L.backguard or ())))
    for x, g in arms(nx):
        if unsat(bg + g):
            continue
        d = sub(x, ph) if ty(x) in ('i', 'r', 'n') else None
        r.append((x, d, g))
    return r

def grows(L, I, ph):
    """True: every way around adds at least a positive constant; False: some way around leaves it as it was or moves it back"""
    kk = ph.a[0][1:]
    nx = L.next.get(kk)
    if nx is None:
        return None, ''
    res = True
    for x, d, g in deltas(L, ph, nx):
        if d is None:
            return None, clip(x, 80)
        if isnum(x) and not isnum(d):
            return False, 'set back to %s under %s' % (x.a[1], clip_guard(g, 150) or 'every condition')
        if isnum(d):
            if d.a[1] == 0:
                return False, 'unchanged under %s' % (clip_guard(g, 150) or 'every condition')
            sgn = 1 if d.a[1] > 0 else -1
            if res is True:
                res = sgn
            elif res != sgn:
                return None, 'moves both ways'
        elif positive_d(d):
            if res is True:
                res = 1
            elif res != 1:
                return None, ''
        else:
            return None, clip(d, 80)
    return (res if res is not True else None), ''

def positive_d(d):
    return entails((), lt(const(0), d))

def bounded(L, lit, iv):
    """the literal that lets the loop go on fails for a large enough counter"""
    sy = {x for x in subterms(lit)}
    if iv not in sy:
        return None
    for seed in range(6):
        r = RI(seed, fixed={iv: 10 ** 9})
        try:
            if r.ev(lit):
                return None
        except Exception:
            return None
    return True

def carried(L, lit):
    return [x for x in subterms(lit) if x.op == 'phi' and x.a[0][0] == L.id]

def one(C, k, I, L):
    w = where(C, k, L)
    nm = C.P.F[k]['n']
    what = '%s: every way around the loop makes progress' % nm
    if L.range:
        C.ob('cursor', what, w, True)
        return
    bg = [x for x in literals(list(L.backguard or ()))]
    hg = set(literals(list(L.headguard or ())))
    iv = raw('iv', L.id)
    own = [l for l in bg if l not in hg]
    if L.allpass if hasattr(L, 'allpass') else False:
        pass
    why = []
    for l in own:
        sy = set(subterms(l))
        if iv in sy and not [x for x in carried(L, l)]:
            if bounded(L, l, iv) or l.op in ('pos', 'nneg') or 'atend' in ops_of(l) or l.op == 'not':
                C.ob('counter', what, w, True)
                return
    for l in own:
        ph = carried(L, l)
        if not ph:
            continue
        if iv in set(subterms(l)):
            if all(samelen(L, p) for p in ph) and l.op in ('pos', 'nneg'):
                C.ob('counter', what, w, True)
                return
            continue
        # work queue
        for q in queues(l):
            if q not in ph or L.next.get(q.a[0][1:]) is None:
                continue
            if all(taken(x, q, I) is True or unsat(tuple(bg) + g) for x, g in arms(L.next[q.a[0][1:]])):
                C.ob('queue', '%s: every way around the loop takes an entry from its queue' % nm, w, True)
                return
        for p in ph:
            nx = L.next.get(p.a[0][1:])
            if nx is None:
                continue
            if ty(p) == 'p':
                if all(x.op == 'fld' and x.a[1] == 'm_parent' and x.a[0].op == 'obj' and x.a[0].a[0] is p or unsat(tuple(bg) + g) for x, g in arms(nx)):
                    C.ob('cursor', '%s: every way around the loop goes to the parent' % nm, w, True)
                    return
            elif nm == 'IsPathValid' and ty(p) == 'r' and [t for t in subterms(nx) if t.op == 'fld' and t.a[1] == 'minPathInterpolationDistance']:
                F = [t for t in subterms(nx) if t.op == 'fld' and t.a[1] == 'minPathInterpolationDistance'][0]
                C.implied('step', '%s: every step along the path has at least the configured minimum length' % nm, w, tuple(bg), le(F, sub(nx, p)))
                return
            elif nm == 'IsPathValid' and ty(p) == 'r' and len(own) and all(isnum(d) is False for x, d, g in deltas(L, p, nx) if d is not None) and nonpos(L, p, nx, bg):
                C.ob('step', '%s: every step along the path has a positive length' % nm, w, False, 'a step can be zero or negative: %s' % clip(sub(nx, p), 200))
                return
            elif ty(p) in ('i', 'n', 'r') and grows(L, I, p)[0] in (1, -1):
                C.ob('counter', what, w, True)
                return
    y = narrowing(L, own, bg)
    if y is not None:
        C.ob('bisection', '%s: every way around the loop narrows the range searched' % nm, w, not y, y)
        return
    y = stuck(L, own, bg, iv)
    if y:
        C.ob('progress', what, w, False, y)

def nonpos(L, p, nx, bg):
    d = sub(nx, p)
    n = 0
    for seed in range(60):
        try:
            r = RI(seed)
            if all(r.ev(x) for x in bg) and r.ev(d) <= 0:
                n += 1
        except Exception:
            return False
    return n > 2

def index(L, p):
    """next value of a carried index, also of an iterator's position"""
    kk = p.a[0][1:]
    if kk in L.next:
        return L.next[kk]
    if kk[1] == ('idx',):
        def at(x):
            if x.op == 'ite':
                y, z = at(x.a[1]), at(x.a[2])
                return None if y is None or z is None else ite(x.a[0], y, z)
            return x.a[1] if x.op == 'vit' else None
        x = L.next.get((kk[0], ()))
        return at(x) if x is not None else None
    return None

def narrowing(L, own, bg):
    """loop over a range [lo,hi): '' if the range shrinks on every way around, a text if some way around leaves it as it is"""
    for l in own:
        ph = sorted(set(carried(L, l)), key=str)
        if len(ph) != 2 or any(ty(p) not in ('i', 'n') for p in ph):
            continue
        nx = [index(L, p) for p in ph]
        if None in nx:
            continue
        ini = [L.init.get((p.a[0][1], ())) if p.a[0][2] == ('idx',) else L.init.get(p.a[0][1:]) for p in ph]
        ini = [x.a[1] if x is not None and x.op == 'vit' else x for x in ini]
        if ini[1] is const(0):
            ph, nx = ph[::-1], nx[::-1]
        elif ini[0] is not const(0):
            continue
        ok = 0
        for a in range(4):
            for b in range(a + 1, 6):
                for seed in range(12):
                    f = {ph[0]: a, ph[1]: b}
                    r = RI(seed, fixed=f)
                    try:
                        if not all(r.ev(x) for x in bg):
                            continue
                        c, d = r.ev(nx[0]), r.ev(nx[1])
                    except Exception:
                        return None
                    if not a <= c <= d <= b:
                        return None
                    if (c, d) == (a, b):
                        return 'a range of %d stays as it is' % abs(a - b)
                    if abs(c - d) == abs(a - b):
                        return None
                    ok += 1
        if ok > 8:
            return ''
    return None

def queues(l):
    for t in subterms(l):
        if t.op == 'app' and t.a[0] in ('call:Empty', 'call:Size') and t.a[2].op == 'phi':
            yield t.a[2]
        elif t.op in ('qempty', 'empty', 'size', 'qsize') and t.a and isinstance(t.a[0], T) and t.a[0].op == 'phi':
            yield t.a[0]

def samelen(L, p):
    nx = L.next.get(p.a[0][1:])
    if nx is None:
        return True
    for x, g in arms(nx):
        while x.op == 'vset':
            x = x.a[0]
        if x is not p:
            return False
    return True

RANDOM = ('rand', 'Sample', 'Generate', 'read', 'get', 'now', 'clock')
def stuck(L, own, bg, iv):
    """a way around on which nothing that decides the next turn is changed: taken once, it is taken for ever"""
    ways = [()]
    budget_ = [600]
    def unsat_(g):
        budget_[0] -= 1
        return unsat(g) if budget_[0] > 0 else False
    for kk, nx in L.next.items():
        for x, g in arms(nx):
            if x is L.phi.get(kk) and g not in ways:
                ways.append(g)
    for g in ways[:60]:
        test = tuple(own) + g
        sy = set()
        for l in test:
            sy |= set(subterms(l))
        if iv in sy or any(t.op == 'app' and any(r.lower() in t.a[0].lower() for r in RANDOM) for t in sy if isinstance(t.a[0] if t.a else None, str)):
            continue
        ph = [t for t in sy if t.op == 'phi' and t.a[0][0] == L.id]
        full = tuple(bg) + g
        if not ph or unsat_(full):
            continue
        good = True
        for p in ph:
            nx = L.next.get(p.a[0][1:])
            if nx is None:
                good = False
                continue
            for x, h in arms(nx):
                if x is not p and not unsat_(full + h):
                    good = False
                    break
        if good:
            return 'nothing its conditions look at changes under %s' % (clip_guard(g, 160) or 'every condition')
    return None

def taken(x, q, I, deep=0):
    """an entry was taken from queue q to give x"""
    n = 0
    while n < 200:
        n += 1
        if x is q:
            return False
        if x.op == 'app' and x.a[0] == 'mut:Pop' or x.op in ('qpop', 'vpop'):
            return True
        if x.op == 'app' and x.a[0].startswith('mut:'):
            x = x.a[2]
        elif x.op in ('qpush', 'push', 'vset', 'ins'):
            x = x.a[0]
        elif x.op in ('phi', 'fin', 'after') and isinstance(x.a[0], tuple):
            M = I.loops.get(x.a[0][0])
            if M is None or deep > 4:
                return None
            i = M.init.get(x.a[0][1:])
            if i is None:
                return None
            x = i
        elif x.op == 'ite':
            r = {taken(y, q, I, deep + 1) for y in x.a[1:3]}
            return r.pop() if len(r) == 1 else None
        else:
            return None
    return None

def called(C):
    r = set()
    for f in C.P.F.values():
        st_ = [f.get('body'), f.get('inits')]
        while st_:
            x = st_.pop()
            if isinstance(x, dict):
                if x.get('fn') and x['fn'] != f.get('key'):
                    r.add(x['fn'])
                st_ += [v for v in x.values() if isinstance(v, (dict, list))]
            elif isinstance(x, list):
                st_ += x
    return r

def loops(C):
    n = 0
    used = called(C)
    for k in sorted(C.P.F):
        if not lib_fn(C, k) or not has_loop(C.P.F[k].get('body')):
            continue
        f = C.P.F[k]
        if f.get('prv') and not f.get('virt') and k not in used:
            continue  # private and never called: no planning query can reach it
        own = (f.get('cls') or '').startswith(BOX)
        name = f['n']
        opq = tuple(x for x in OPQ if x != name) + (() if own else boxed(C))
        kw = {}
        if name == 'Update' and (f.get('cls') or '').startswith('Planner::GVD::'):
            near = [n for c, n in GRIDS if c == f['cls']]
            try:
                M = Map(C, f['cls'], near[0]) if near else None
            except AnchorError:
                M = None
            if M:
                kw = {'S': M.S.fork(), 'this': M.this, 'thiscls': M.cls}
        try:
            I = C.run(k, **kw, opaque=opq, nomut=tuple(x for x in opq if x not in MUT and x in OPQ) + READ, unroll=0)
        except RecursionError:
            continue
        for L in I.loops.values():
            if len(L.id) >= 1 and str(L.id[-1]).split('.')[0] == '1':
                n += 1
                one(C, k, I, L)
    C.need(n, 'no loops')

def outer(I):
    return [L for L in I.loops.values() if len(L.id) == 1 and str(L.id[0]).split('.')[0] == '1' and not L.range]

def budget(C, k, nm, field, what, L, I, counter=True):
    w = where(C, k, L)
    bg = [x for x in literals(list(L.backguard or ()))]
    fl = lambda t: t.op == 'fld' and t.a[1] == field
    iv = raw('iv', L.id)
    refill = [q for q, p in L.phi.items() if q[1] and q[1][-1][0] == 'f' and q[1][-1][1] == field]
    if refill:
        C.ob('budget', '%s: %s is not changed while it is being used up' % (nm, what), w, False if L.next.get(refill[0]) is not L.phi[refill[0]] else True, 'the loop stores it')
    B = [l for l in bg if any(fl(t) for t in subterms(l))]
    ttl = '%s: the search ends once its %s is used up' % (nm, what)
    if not B:
        C.ob('budget', ttl, w, False, 'the loop goes on whatever the value of %s' % field)
        return
    best = None
    for l in B:
        F = [t for t in subterms(l) if fl(t)][0]
        if counter:
            sy = set(subterms(l))
            if iv in sy:
                r = past(l, {F: 10, iv: 13})
                if r is True:
                    C.ob('budget', ttl, w, True)
                    return
                best = (r, 'it goes on beyond the budget')
            else:
                for p in carried(L, l):
                    s_, y = grows(L, I, p)
                    if s_ is False:
                        best = (False, 'the iteration count is ' + y)
                    elif s_ in (1, -1):
                        C.ob('budget', ttl, w, True)
                        return
                    elif best is None:
                        best = (None, y)
        else:
            S = [t for t in subterms(l) if t.op == 'app' and t.a[0] == 'call:Size']
            if S:
                r = past(l, {F: 10, S[0]: 13})
                if r is True:
                    C.ob('budget', ttl, w, True)
                    return
                best = (r, 'it goes on beyond the limit')
    C.ob('budget', ttl, w, best[0] if best else None, best[1] if best else clip(B[0], 150))

def past(l, fixed):
    r = set()
    for seed in range(8):
        try:
            r.add(bool(RI(seed, fixed=fixed).ev(l)))
        except Exception:
            return None
    return r == {False}

def budgets(C):
    for c in ('Planner::RRT', 'Planner::RRTStar'):
        ks = method(C, c, 'SearchPath')
        C.need(ks, 'no %s::SearchPath' % c)
        k = ks[0]
        nm = c.split('::')[-1]
        opq = OPQ + boxed(C)
        I = C.run(k, opaque=opq, nomut=tuple(x for x in OPQ if x not in MUT) + READ)
        Ls = outer(I)
        C.need(Ls, nm + ': no search loop')
        L = Ls[0]
        budget(C, k, nm, 'maxIteration', 'iteration budget', L, I)
        budget(C, k, nm, 'maxNumberTreeNode', 'node limit', L, I, counter=False)
    ks = [k for k in sorted(C.P.F) if C.P.F[k]['n'] == 'Smooth' and C.P.F[k].get('cls') == 'Planner::Smoother' and C.P.F[k].get('body')]
    C.need(ks, 'no Smoother::Smooth')
    I = C.run(ks[0], opaque=OPQ, nomut=tuple(x for x in OPQ if x not in MUT))
    Ls = [L for L in outer(I) if any(l2.id[:1] == L.id and len(l2.id) > 1 for l2 in I.loops.values())]
    C.need(Ls, 'Smoother: no descent loop')
    budget(C, ks[0], 'Smoother', 'maxIterations', 'iteration budget', Ls[0], I)

def run(C):
    C.each(budgets, loops)
