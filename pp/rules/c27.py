"""The Voronoi field: the value written for a cell is compared, as a term, with the published potential; the update visits every
cell after refreshing obstacle map and Voronoi map in that order; queries by world position are compared with the query of the
cell containing the position, for positions inside and outside the map."""
from lib import *
TECHNIQUE = 'static symbolic summaries (value numbering against the field definition, effect order) over the clang AST'

this = sym('this', 'p')
G = 'Planner::GVD'
OD, VD = 'GetDistanceToNearestObstacle', 'GetDistanceToNearestVoronoiEdge'

def run(C):
    C.assume.append('real arithmetic; alpha > 0, dMax > 0')
    C.each(field, order, build, queries)

def at(e):
    return '%s:%s' % (e.file.split('/src/')[-1] if e.file else '?', e.line)

def field(C):
    k = C.func(G + '::PathCostMap::Update', 2)
    w = C.where(k)
    f = C.P.F[k]
    I = C.run(k, opaque=(OD, VD), nomut=(OD, VD))
    o = raw('obj', this)
    R, K = fld(o, 'rows', 'i'), fld(o, 'columns', 'i')
    sts = [e for e in I.events if e.kind == 'store' and e.recvlv is not None and e.recvlv.root[0] == 'O' and str(e.recvlv.root[2]).startswith('arr:')]
    C.need(sts, 'stores of PathCostMap::Update')
    a, dm = fld(o, 'alpha', 'r'), fld(o, 'dMax', 'r')
    done = []
    for e in sts:
        idx = [x for x in e.recvlv.path if x[0] == 'i'][0][1]
        ivs = sorted({x for x in subterms(idx) if x.op == 'iv'}, key=lambda x: len(x.a[0]))
        if len(ivs) != 2:
            C.ob('field', 'cells written', at(e), None, clip(idx))
            continue
        r = c = None
        for x, y in ((ivs[0], ivs[1]), (ivs[1], ivs[0])):
            if sub(idx, add(y, mul(x, K))) is ZERO:
                r, c = x, y
        if r is None:
            C.ob('field', 'the entry written is that of the cell evaluated', at(e), False, clip(idx))
            continue
        for x, n, what in ((r, R, 'row'), (c, K, 'column')):
            L = I.loops[x.a[0]]
            t = trips(L)
            C.same('field', 'every %s is written' % what, at(e), t, n) if t is not None else C.ob('field', 'every %s is written' % what, at(e), False if any(q[0] != 'normal' for q in L.exits) else None)
        done.append((e, r, c))
    if not done:
        return
    r, c = done[0][1], done[0][2]
    # value per case
    dO = dV = None
    for e, *_ in done:
        for t in list(e.args) + list(e.guard):
            for x in subterms(t):
                if x.op == 'app' and x.a[0] == 'call:' + OD:
                    dO = dO or x
                    okc = x.a[3] is r and x.a[4] is c if len(x.a) > 4 else None
                    C.ob('field', 'the obstacle distance is that of the cell', at(e), okc, clip(x))
                    C.ob('field', 'the obstacle distance is taken from the obstacle map', at(e), str(x.a[2]) == f['ps'][0]['n'], clip(x.a[2]))
                if x.op == 'app' and x.a[0] == 'call:' + VD:
                    dV = dV or x
                    okc = x.a[3] is r and x.a[4] is c if len(x.a) > 4 else None
                    C.ob('field', 'the edge distance is that of the cell', at(e), okc, clip(x))
    C.need(dO is not None, 'obstacle distance')
    if dV is None:
        C.ob('field', 'the field depends on the distance to the Voronoi edges', w, False, 'not used')
        return
    lc = tuple(I.loops[x.a[0]].cond for x in (r, c))
    p, q = sym('pos:dO', 'r'), sym('pos:dV', 'r')
    A, D = sym('pos:alpha', 'r'), sym('pos:dMax', 'r')
    m = {dO: p, dV: q, a: A, dm: D}
    want = mul(A, inv(add(A, p)), q, inv(add(p, q)), sub(p, D), sub(p, D), inv(D), inv(D))
    cover = []
    for e, lits, v0 in [(e, literals(tuple(e.guard) + gg), v0) for e, *_ in done for gg, v0 in leaves(e.args[0])]:
        g = tuple(subst(x, m) for x in lits if not entails(lc, x))
        g = tuple(x for x in g if x is not TRUE)
        v = subst(v0, m)
        cover.append(and_(*g))
        if FALSE in g:
            g0 = [x for x in lits if subst(x, m) is FALSE]
            if all('inf' in str(x) and dV in subterms(x) for x in g0):
                C.same('field', 'the field vanishes without Voronoi edge', at(e), v0, ZERO, guard=tuple(lits))
            continue
        near = g + (lt(p, D),)
        far = g + (le(D, p),)
        feas_near, feas_far = sat(near), sat(far)
        if feas_far:
            C.same('field', 'the field vanishes from dMax on', at(e), v, ZERO, guard=far)
        if feas_near:
            if any('inf' in str(l) for l in g) and v is ZERO:
                C.ob('field', 'the field vanishes without Voronoi edge', at(e), True)
            else:
                if not any(dV in subterms(l) for l in lits) and q in subterms(v):
                    C.ob('field', 'the field vanishes without Voronoi edge', at(e), False, 'computed from an infinite distance')
                C.same('field', 'the field is the Voronoi potential', at(e), v, want, guard=tuple(x for x in near if 'inf' not in str(x)), n=60)
    u = or_(*cover)
    C.ob('field', 'every cell is written', w, True if u is TRUE or entails((), u) else decide_implied((), u), clip(u))

def leaves(t, g=()):
    if t.op == 'ite':
        return leaves(t.a[1], g + (t.a[0],)) + leaves(t.a[2], g + (not_(t.a[0]),))
    return [(g, t)]

def sat(g):
    for s in range(80):
        r = RI(s)
        try:
            if all(r.ev(x) for x in g):
                return True
        except (TypeError, ValueError, OverflowError):
            pass
    return False

def order(C):
    k = C.func(G + '::Update', 0)
    w = C.where(k)
    I = C.run(k, opaque=('Update',))
    ev = [e for e in I.events if e.kind == 'call' and e.name == 'Update']
    def idx(name):
        for i, e in enumerate(ev):
            if e.recv is not None and name in root_field(e.recv):
                return i, e
        return None, None
    o, eo = idx('m_obstacleMap')
    v, ev_ = idx('m_voronoiMap')
    c, ec = idx('m_pathCostMap')
    for i, e, n in ((o, eo, 'obstacle map'), (v, ev_, 'Voronoi map'), (c, ec, 'field')):
        C.ob('order', 'updating the diagram updates the ' + n, w, i is not None, 'not updated')
        if e is not None:
            C.ob('order', 'the %s is always updated' % n, at(e), True if not literals(e.guard) else False, '; '.join(clip(l) for l in literals(e.guard))[:160])
    if None not in (o, v, c):
        C.ob('order', 'the Voronoi map is updated after the obstacle map', w, o < v)
        C.ob('order', 'the field is updated last', w, v < c and o < c)
        C.ob('order', 'the field is computed from the maps of this diagram', at(ec), True if len(ec.args) == 2 and 'm_obstacleMap' in str(ec.args[0]) and 'm_voronoiMap' in str(ec.args[1]) else None, ', '.join(clip(x) for x in ec.args))

def root_field(t):
    while t is not None and t.op in ('obj', 'app', 'phi'):
        if t.op == 'obj':
            t = t.a[0]
        elif t.op == 'app':
            t = t.a[2] if len(t.a) > 2 else None
        else:
            return str(t)
    return t.a[1] if t is not None and t.op == 'fld' else ''

def build(C):
    """the diagram works on the maps of its occupancy map with its own parameters"""
    ks = [k for k, f in C.P.F.items() if f.get('kind') == 'ctor' and f.get('cls') == G and f.get('body') and len(f['ps']) == 1 and 'OccupancyMap' in f['ps'][0]['t']]
    C.need(ks, 'GVD constructor')
    k = ks[0]
    w = C.where(k)
    I = C.run(k, opaque=('GetVoronoiDistanceMap',))
    o = I.read(I.S, I.deref(this, G))
    mp = sym(C.P.F[k]['ps'][0]['n'], 'p')
    C.same('build', 'the diagram keeps the map it was built for', w, fld(o, 'm_occupancyMap', 'p'), mp)
    C.same('build', 'the obstacle map is that of the occupancy map', w, fld(o, 'm_obstacleMap', 'p'), fld(raw('obj', mp), 'm_obstacleDistanceMap', 'p'))
    v = fld(o, 'm_voronoiMap', 'p')
    C.ob('build', 'the Voronoi map belongs to that obstacle map', w, True if v.op == 'app' and 'GetVoronoiDistanceMap' in v.a[0] and 'm_obstacleDistanceMap' in str(v.a[2]) else None, clip(v))
    pc = fld(o, 'm_pathCostMap', 'o')
    for nm in ('alpha', 'dMax'):
        C.same('build', 'the field uses the parameter %s of the diagram' % nm, w, fld(pc, nm, 'r'), fld(o, nm, 'r'))

def queries(C):
    n = 0
    for nm, acc, pos in (('GetNearestObstaclePosition', 'GetNearestObstacleCell', True), ('GetNearestVoronoiEdgePosition', 'GetNearestVoronoiEdgeCell', True),
                         (OD, OD, False), (VD, VD, False), ('GetPathCost', 'GetPathCost', False)):
        ks = [k for k in C.func(G + '::' + nm, 2, many=True) if 'Eigen' in C.P.F[k]['ps'][0]['t'] or 'Point2' in C.P.F[k]['ps'][0]['t']]
        C.need(ks, nm + '(position, result)')
        k = ks[0]
        w = C.where(k)
        f = C.P.F[k]
        I = C.run(k, opaque=('WorldPositionToGridCell', 'GridCellToWorldPosition'), nomut=('WorldPositionToGridCell', 'GridCellToWorldPosition'))
        outn = f['ps'][1]['n']
        key = [kk for kk in I.S.mem if kk[0] == 'P' and kk[1] == outn]
        if not key:
            C.ob('query', '%s reports its result' % nm, w, False, 'the result is never assigned')
            continue
        out = I.read(I.S, LV(key[0], (), f['ps'][1]['t']))
        P = sym(f['ps'][0]['n'], 'o')
        mp = raw('obj', fld(raw('obj', this), 'm_occupancyMap', 'p'))
        R, K = fld(mp, 'm_rows', 'i'), fld(mp, 'm_columns', 'i')
        r, c = sym('row', 'i'), sym('col', 'i')
        inside = and_(le(ZERO, r), lt(r, R), le(ZERO, c), lt(c, K))
        m = {}
        bad = None
        for t in (I.ret, out):
            for x in subterms(t):
                if x.op == 'app' and x.a[0] == 'call:WorldPositionToGridCell':
                    if x.a[2] is not mp or P not in x.a[3:]:
                        bad = x
                        continue
                    b = x.a[-1] if ty(x.a[-1]) == 'b' else TRUE
                    for q, s in (('row', r), ('col', c)):
                        m[fld(x, q, 'i')] = s if b is FALSE else ite(inside, s, const(-1))
        if bad is not None or not m:
            C.ob('query', '%s looks at the cell of the position' % nm, w, None, clip(bad) if bad is not None else clip(I.ret))
            continue
        n += 1
        ks = [q for q in C.func(G + '::' + acc, 2, many=True) if C.P.strip(C.P.F[q]['ps'][0]['t']) == 'int']
        C.need(ks, acc + '(row, col)')
        J = C.run(ks[0], args={0: r, 1: c}, S=None)
        cell = J.ret if J.ret is not None else None
        if cell is None and J.retlv is not None:
            cell = J.read(J.S, J.retlv)
        if isinstance(cell, LV):
            cell = J.read(J.S, cell)
        # extents of the diagram and of the map are the same (C10)
        ret = subst(I.ret, m)
        if pos:
            val = and_(le(ZERO, fld(cell, 'row', 'i')), le(ZERO, fld(cell, 'col', 'i')))
            C.same('query', '%s answers exactly for positions inside the map that have a nearest one' % nm, w, ret, and_(inside, val), n=120)
            g = (inside, val)
            o2 = simp_under(subst(out, m), g)
            got = [x for x in subterms(o2) if x.op == 'app' and x.a[0] == 'call:GridCellToWorldPosition']
            if o2 in got:
                C.ob('query', '%s reports the world position of the nearest cell' % nm, w, True if len(o2.a) == 4 and same_cell(o2.a[3], cell, g) else False if len(o2.a) == 4 else None, clip(o2))
            else:
                C.ob('query', '%s reports the world position of the nearest cell' % nm, w, None, clip(o2))
        else:
            C.same('query', '%s answers exactly for positions inside the map' % nm, w, ret, inside, n=120)
            C.same('query', '%s reports the value of the cell containing the position' % nm, w, simp_under(subst(out, m), (inside,)), cell, guard=(inside,), n=60)
    C.count('position queries', n)

def same_cell(a, b, g):
    return a is b or all(decide_same(fld(a, x, 'i'), fld(b, x, 'i'), g)[0] is True for x in ('row', 'col'))
