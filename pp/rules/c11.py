"""Transfer-function analysis of the distance maps. Every primitive and one generic iteration of each propagation loop is
evaluated on a map object whose grids are distinct symbolic arrays; the resulting per-cell transfer functions are checked
against the pairing invariant (distance = squared grid distance to the recorded cell, infinite exactly without one) and
the queueing rules."""
from lib import *
TECHNIQUE = 'static transfer-function (inductive invariant) analysis over the clang AST'

MAX = const((1 << 31) - 1)

class Map:
    def __init__(self, C, cls, near):
        self.C, self.cls, self.near = C, cls, near
        self.this = raw('alloc', 'map', (), cls)
        J = C.interp()
        S = State()
        o = J.deref(self.this, cls)
        names = {x['n'] for x in C.P.fields(cls)}
        C.need({'m_distance', near, 'm_toRaise', 'm_toProcess', 'm_open'} <= names, cls + ' grids')
        self.arr = {}
        self.cols, self.rows = sym('columns', 'i'), sym('rows', 'i')
        for x in C.P.fields(cls):
            if 'Grid<' in x['t'] and 'shared_ptr' not in x['t'] and 'Ref<' not in x['t']:
                g = o.f(x['n'], 'o', None)
                p = raw('alloc', x['n'], (), 'arr')
                self.arr[x['n']] = p
                J.write(S, g.f('m_data', 'p', None), p)
                J.write(S, g.f('columns', 'i', None), self.cols)
                J.write(S, g.f('rows', 'i', None), self.rows)
        J.write(S, o.f('rows', 'i', None), self.rows)
        J.write(S, o.f('columns', 'i', None), self.cols)
        self.S = S
        self.sel = {'m_distance': ('arr:int', 'i'), near: ('arr:Planner::GridCellPosition', 'o'),
                    'm_toRaise': ('arr:bool', 'b'), 'm_toProcess': ('arr:bool', 'b')}
    def idx(self, c):
        return add(fld(c, 'col', 'i'), mul(fld(c, 'row', 'i'), self.cols))
    def grid(self, I, S, name):
        return I.base(S, ('O', self.arr[name], self.sel[name][0]))
    def get(self, g, name, i):
        return vget(g, i, self.sel[name][1])
    def queue(self, I, S):
        return I.read(S, I.deref(self.this, self.cls).f('m_open', 'o', None))

def valid(c):
    return and_(le(ZERO, fld(c, 'row', 'i')), le(ZERO, fld(c, 'col', 'i')))
def eqc(a, b):
    return and_(eq(fld(a, 'row', 'i'), fld(b, 'row', 'i')), eq(fld(a, 'col', 'i'), fld(b, 'col', 'i')))
def sq(a, b):
    r, c = sub(fld(a, 'row', 'i'), fld(b, 'row', 'i')), sub(fld(a, 'col', 'i'), fld(b, 'col', 'i'))
    return add(mul(r, r), mul(c, c))
INVAL = st('Planner::GridCellPosition', None, {'row': const(-1), 'col': const(-1)})

def pushed(q, base, n, d, guard, depth=0):
    """was (n, d) pushed on q since base? True / False / None"""
    if q is base:
        return False
    if depth > 40:
        return None
    if q.op == 'qpush':
        e = q.a[1]
        oks = [decide_same(x, y, guard)[0] for x, y in ((fld(fld(e, 'position', 'o'), 'row', 'i'), fld(n, 'row', 'i')), (fld(fld(e, 'position', 'o'), 'col', 'i'), fld(n, 'col', 'i')), (fld(e, 'value', 'i'), d))]
        ok1 = False if False in oks else None if None in oks else True
        if ok1:
            return True
        r = pushed(q.a[0], base, n, d, guard, depth + 1)
        return r if r is not False else ok1
    if q.op == 'ite':
        a = pushed(q.a[1], base, n, d, tuple(guard) + (q.a[0],), depth + 1) if not refuted(guard, q.a[0]) else True
        b = pushed(q.a[2], base, n, d, tuple(guard) + (not_(q.a[0]),), depth + 1) if not refuted(guard, not_(q.a[0])) else True
        if a is True and b is True:
            return True
        return False if a is False or b is False else None
    if q.op == 'qpop':
        return pushed(q.a[0], base, n, d, guard, depth + 1)
    return None

def refuted(guard, c):
    return entails(tuple(guard), not_(c))

def cond_same(C, rule, what, w, a, b, guard):
    """equality of values under a guard, by cases of the guard"""
    return C.same(rule, what, w, simp_under(a, guard), simp_under(b, guard), guard=guard, n=60)

def prims(C, M, setn, unsetn):
    for nm, on in ((setn, True), (unsetn, False)):
        k = C.func(re.escape(M.cls) + '::' + nm, 1)
        w = C.where(k)
        s = sym('s', 'o')
        q0 = M.queue(C.interp(), M.S)
        I = C.run(k, S=M.S.fork(), this=M.this, thiscls=M.cls, args={0: s})
        i = M.idx(s)
        d = M.get(M.grid(I, I.S, 'm_distance'), 'm_distance', i)
        o = M.get(M.grid(I, I.S, M.near), M.near, i)
        C.same('pair', nm + ' stores the distance', w, d, ZERO if on else MAX)
        C.same('pair', nm + ' stores the nearest cell (row)', w, fld(o, 'row', 'i'), fld(s, 'row', 'i') if on else const(-1))
        C.same('pair', nm + ' stores the nearest cell (col)', w, fld(o, 'col', 'i'), fld(s, 'col', 'i') if on else const(-1))
        C.same('queue', nm + ' marks the cell for processing', w, M.get(M.grid(I, I.S, 'm_toProcess'), 'm_toProcess', i), TRUE)
        C.ob('queue', nm + ' queues the cell with its distance', w, pushed(M.queue(I, I.S), q0, s, ZERO if on else MAX, I.S.guard), clip(M.queue(I, I.S)))
        tr = M.get(M.grid(I, I.S, 'm_toRaise'), 'm_toRaise', i)
        if not on:
            C.same('raise', nm + ' marks the cell as raised', w, tr, TRUE)
        # nothing else changes
        x = sym('other', 'o')
        g = (not_(eq(M.idx(x), i)),)
        for a in M.sel:
            b0, b1 = M.get(M.grid(I, M.S, a), a, M.idx(x)), M.get(M.grid(I, I.S, a), a, M.idx(x))
            for f in (('row', 'col') if a == M.near else (None,)):
                u, v = (fld(b0, f, 'i'), fld(b1, f, 'i')) if f else (b0, b1)
                C.same('frame', '%s leaves %s of other cells alone%s' % (nm, a, ' (%s)' % f if f else ''), w, simp_under(v, g), u, guard=g)
        C.count('primitive operations')

def ctor(C, cls, near):
    ks = [k for k in C.func(re.escape(cls) + '::' + cls.split('::')[-1], many=True) if C.P.F[k].get('kind') == 'ctor' and len(C.P.F[k]['ps']) >= 2 and C.P.F[k].get('body')]
    C.need(ks, cls + ' constructor')
    for k in ks:
        w = C.where(k)
        I = C.run(k, opaque=('Grid',))
        want = {'m_distance': MAX, near: None, 'm_toRaise': FALSE, 'm_toProcess': FALSE}
        o = I.read(I.S, I.deref(sym('this', 'p'), cls))
        for f, v in want.items():
            g = fld(o, f, 'o')
            e = [x for x in I.events if x.kind in ('ctor', 'call') and x.name == 'Grid' and x.recvlv is not None and x.recvlv.path and x.recvlv.path[-1][1] == f]
            if not e:
                C.ob('initial', 'initial value of ' + f, w, None)
                continue
            a = e[0].args
            if f == near:
                C.same('initial', 'no nearest cell at first', w, valid(a[2]), FALSE)
            else:
                C.same('initial', 'initial value of ' + f, w, a[2], v)

def update(C, M):
    k = C.func(re.escape(M.cls) + '::Update', 0)
    w = C.where(k)
    I = C.run(k, S=M.S.fork(), this=M.this, thiscls=M.cls, opaque=('GetNeighbors',))
    AR = {n: ('O', M.arr[n], M.sel[n][0]) for n in M.sel}
    outer = [L for L in I.loops.values() if len(L.id) == 1 and any(key[1] and key[1][-1][1] == 'm_open' for key in L.next)]
    C.need(outer, 'propagation loop of ' + M.cls)
    L0 = outer[0]
    qk = [key for key in L0.next if key[1] and key[1][-1][1] == 'm_open'][0]
    q0 = L0.phi[qk]
    C.ob('drain', 'the wave runs until the queue is empty', w,
         True if all(kk == 'normal' for kk, *_ in L0.exits) and decide_same(L0.cond, not_(eq(size(q0), ZERO)))[0] else
         None if L0.cond is None else (False if any(kk in ('break', 'return') for kk, *_ in L0.exits) else decide_same(L0.cond, not_(eq(size(q0), ZERO)))[0]),
         'left by %s under %s' % (','.join(kk for kk, *_ in L0.exits), clip(L0.cond)))
    s = fld(app('qtop', q0, ty='o'), 'position', 'o')
    si = M.idx(s)
    h = {n: L0.phi.get((AR[n], ()), None) for n in M.sel}
    if any(v is None for v in h.values()):
        # an array not written by the loop: it keeps its entry value
        for n in M.sel:
            if h[n] is None:
                h[n] = M.grid(I, M.S, n)
    tp0, tr0 = M.get(h['m_toProcess'], 'm_toProcess', si), M.get(h['m_toRaise'], 'm_toRaise', si)
    ob0 = M.get(h[M.near], M.near, si)
    occ0 = and_(valid(ob0), eqc(M.get(h[M.near], M.near, M.idx(ob0)), ob0))
    inner = [L for L in I.loops.values() if len(L.id) == 2 and L.id[0] == L0.id[0] and any((AR[n], ()) in L.next for n in ('m_distance', M.near, 'm_toRaise'))]
    raises = [L for L in inner if entails(L.headguard, tr0)]
    lowers = [L for L in inner if entails(L.headguard, not_(tr0))]
    C.need(inner and len(raises) + len(lowers) == len(inner), 'neighbour loops of ' + M.cls)
    ne = not_(eq(size(q0), ZERO))
    for nm, Ls, cond in (('raise', raises, (ne, tp0, tr0)), ('lower', lowers, (ne, tp0, not_(tr0), occ0))):
        if not C.ob('wave', 'there is a %s wave' % nm, w, bool(Ls)):
            continue
        L = Ls[0]
        C.implied('wave', 'the %s wave runs from every %s cell that is to be processed' % (nm, nm + 'd'), w, cond, and_(*L.headguard))
        C.implied('wave', 'the %s wave runs only from such cells' % nm, w, L.headguard, and_(tp0, tr0 if nm == 'raise' else occ0))
        C.ob('wave', 'the %s wave visits every neighbour' % nm, w,
             None if trips(L) is None and not any(kk in ('break', 'return') for kk, *_ in L.exits) else bool(all(kk == 'normal' for kk, *_ in L.exits)), clip(L.cond))
        els = {x for v in list(L.next.values()) + [L.cond] for x in subterms(v) if x.op == 'app' and x.a[0] == 'call:GetNeighbors'} 
        els = list(els)
        if len(els) != 1:
            C.ob('wave', 'neighbours of the %s wave' % nm, w, None)
            continue
        nb = els[0]
        a = nb.a[2:]
        C.ob('wave', 'the %s wave visits the neighbours of the cell taken from the queue' % nm, w,
             decide_same(and_(eqc(a[0], s)), TRUE)[0] if len(a) == 3 else None, clip(nb))
        if len(a) == 3:
            C.same('wave', 'neighbours are generated inside the map', w, tup(a[1], a[2]), tup(M.rows, M.cols))
        n = sym('n', 'o')
        el = vget(nb, raw('iv', L.id), 'o')
        # the state of the neighbour before and after
        def before(nmx):
            g = L.phi.get((AR[nmx], ()))
            if g is None:
                g = [v for v in (L.back and [M.grid(I, L.back, nmx)] or [])][0]
            return g
        ni = M.idx(n)
        plain = {L0.phi[x]: sym('Q0' if x == qk else 'G0:' + x[0][1].a[0], 'o') for x in L0.phi if x == qk or (x[0] in AR.values() and not x[1])}
        for nmx in M.sel:
            ph = L.phi.get((AR[nmx], ()))
            if ph is not None:
                plain[M.get(ph, nmx, si)] = M.get(subst(h[nmx], plain), nmx, subst(si, plain))
                plain[ph] = sym('G1:' + nmx, 'o')
        if qk in L.phi:
            plain[L.phi[qk]] = sym('Q1', 'o')
        def P_(t):
            return subst(subst(t, {el: n}), plain)
        si_ = P_(si)
        b = {x: P_(M.get(before(x), x, M.idx(el))) for x in M.sel}
        aft = {x: P_(M.get(M.grid(I, L.back, x), x, M.idx(el))) for x in M.sel}
        qa = P_(M.queue(I, L.back))
        qb = P_(L.phi[qk]) if qk in L.phi else qa
        d, o, tr, tp = b['m_distance'], b[M.near], b['m_toRaise'], b['m_toProcess']
        d2, o2, tr2, tp2 = aft['m_distance'], aft[M.near], aft['m_toRaise'], aft['m_toProcess']
        obg = P_(before(M.near))
        occ = and_(valid(o), eqc(M.get(obg, M.near, M.idx(o)), o))
        ob = P_(ob0)
        new = sq(ob, n)
        def cell(rule, what, got, want, g):
            cond_same(C, rule, what + ' (row)', w, fld(got, 'row', 'i'), fld(want, 'row', 'i'), g)
            cond_same(C, rule, what + ' (col)', w, fld(got, 'col', 'i'), fld(want, 'col', 'i'), g)
        # a neighbour is not the cell itself
        far = (not_(eq(ni, si_)),)
        def unchanged(tag, g):
            cond_same(C, 'step', tag + ': distance unchanged', w, d2, d, g)
            cell('step', tag + ': nearest cell unchanged', o2, o, g)
            cond_same(C, 'step', tag + ': raise mark unchanged', w, tr2, tr, g)
        def queued(tag, g, val):
            cond_same(C, 'queue', tag + ': marked for processing', w, tp2, TRUE, g)
            C.ob('queue', tag + ': queued with its distance', w, pushed(simp_under(qa, g), simp_under(qb, g), n, val, g), clip(qa))
        def reset(tag, g):
            cond_same(C, 'pair', tag + ': distance becomes infinite', w, d2, MAX, g)
            cond_same(C, 'pair', tag + ': nearest cell becomes none', w, valid(o2), FALSE, g)
            cond_same(C, 'raise', tag + ': marked as raised', w, tr2, TRUE, g)
            queued(tag, g, MAX)
        vo, no = valid(o), not_(valid(o))
        if nm == 'raise':
            og = M.get(obg, M.near, M.idx(o))
            e1, e2 = eq(fld(og, 'row', 'i'), fld(o, 'row', 'i')), eq(fld(og, 'col', 'i'), fld(o, 'col', 'i'))
            free = [(not_(e1),), (e1, not_(e2))]
            for j, f in enumerate(free):
                reset('raise wave, dependant of a freed cell' + ' #%d' % j, far + (vo, not_(tr)) + f)
            g = far + (vo, not_(tr), e1, e2)
            unchanged('raise wave, neighbour of an occupied cell', g)
            queued('raise wave, neighbour of an occupied cell', g, d)
            unchanged('raise wave, already raised neighbour', far + (vo, tr))
            unchanged('raise wave, neighbour without nearest cell', far + (lt(fld(o, 'row', 'i'), ZERO),))
            unchanged('raise wave, neighbour without nearest cell (col)', far + (le(ZERO, fld(o, 'row', 'i')), lt(fld(o, 'col', 'i'), ZERO)))
        else:
            g = far + (not_(tr), lt(new, d))
            cond_same(C, 'pair', 'lower wave, closer neighbour: distance to the inherited cell', w, d2, new, g)
            cell('pair', 'lower wave, closer neighbour: inherits the nearest cell', o2, ob, g)
            cond_same(C, 'step', 'lower wave, closer neighbour: raise mark unchanged', w, tr2, tr, g)
            queued('lower wave, closer neighbour', g, new)
            unchanged('lower wave, neighbour not closer', far + (not_(tr), le(d, new)))
            unchanged('lower wave, raised neighbour', far + (tr,))
            C.ob('wave', 'the lower wave starts from the cell as it was taken', w, True if L.init.get((AR[M.near], ())) in (h[M.near], None) else None)
        C.count('propagation steps')
    # after the waves
    nx = {n: L0.next.get((AR[n], ()), h[n]) for n in M.sel}
    if raises:
        g = (ne, tp0, tr0)
        C.same('raise', 'a raised cell stops being raised once its neighbours were visited', w, simp_under(M.get(nx['m_toRaise'], 'm_toRaise', si), g), FALSE, guard=g)
        # not before: the loop starts with the mark still set
        i0 = raises[0].init.get((AR['m_toRaise'], ()))
        if i0 is not None:
            C.same('raise', 'a cell stays raised until its neighbours were visited', w, simp_under(M.get(i0, 'm_toRaise', si), g), TRUE, guard=g)
        C.same('raise', 'a raised cell stays to be processed', w, seen(simp_under(M.get(nx['m_toProcess'], 'm_toProcess', si), g), raises[0], AR['m_toProcess'], M, si), TRUE, guard=g)
    for nme in ('m_distance', M.near):
        for tag, g in (('not to be processed', (ne, not_(tp0))),):
            C.same('step', '%s of no cell changes for a cell %s' % (nme, tag), w, simp_under(nx[nme], g), h[nme], guard=g)

def seen(t, L, root, M, si):
    """value after the loop of an entry the loop only writes for other cells"""
    phi = raw('phi', (L.id, root, ()), 'o')
    ini = L.init.get((root, ()))
    return subst(t, {phi: ini}) if ini is not None else t

def access(C, M, what):
    r, c = sym('row', 'i'), sym('col', 'i')
    cl = sym('cell', 'o')
    S = M.S.fork()
    I0 = C.interp()
    res = fld(I0.read(S, I0.deref(M.this, M.cls)), 'resolution', 'r')
    g0 = M.grid(I0, S, 'm_distance'), M.grid(I0, S, M.near)
    for k in C.func(re.escape(M.cls) + '::GetDistanceToNearest' + what, many=True):
        f = C.P.F[k]
        args, i = ({0: r, 1: c}, add(c, mul(r, M.cols))) if len(f['ps']) == 2 else ({0: cl}, M.idx(cl))
        I = C.run(k, S=S.fork(), this=M.this, thiscls=M.cls, args=args)
        C.same('read', 'the metric distance is the root of the squared cell distance times the resolution', C.where(k), I.ret,
               mul(fn1('sqrt', M.get(g0[0], 'm_distance', i)), res))
    for k in C.func(re.escape(M.cls) + '::GetNearest' + what + 'Cell', many=True):
        f = C.P.F[k]
        args, i = ({0: r, 1: c}, add(c, mul(r, M.cols))) if len(f['ps']) == 2 else ({0: cl}, M.idx(cl))
        I = C.run(k, S=S.fork(), this=M.this, thiscls=M.cls, args=args)
        o = M.get(g0[1], M.near, i)
        C.same('read', 'the nearest cell is the recorded one', C.where(k), and_(eqc(I.ret, o)), TRUE)

def run(C):
    C.assume.append('squared distances fit an int (maps below 32768 cells a side); a cell is not its own neighbour')
    for cls, near, a, b, what in (('Planner::GVD::ObstacleDistanceMap', 'm_obstacle', 'SetObstacle', 'UnsetObstacle', 'Obstacle'),
                                  ('Planner::GVD::VoronoiDistanceMap', 'm_edge', 'SetEdge', 'UnsetEdge', 'VoronoiEdge')):
        def part(f, *a):
            def go(C):
                f(C, Map(C, cls, near), *a)
            go.__name__ = f.__name__
            return go
        def made(C):
            ctor(C, cls, near)
        C.each(part(prims, a, b), made, part(update), part(access, what))

def metric(C):
    access(C, Map(C, 'Planner::GVD::ObstacleDistanceMap', 'm_obstacle'), 'Obstacle')
