"""Outlines and rasterisation of obstacles. Vertex lists are compared with their geometric definition as terms; the edge loop is
shown to visit every consecutive pair including the closing one; the line rasteriser is analysed per octant: its first cell, the
step between consecutive cells, the number of cells, the clipping condition, and the inductive invariant of its error term."""
from lib import *
TECHNIQUE = 'static symbolic summaries and inductive loop invariants (per octant) over the clang AST'

this = sym('this', 'p')

def run(C):
    C.assume.append('real arithmetic; polygons have at least one vertex; integer coordinates do not overflow')
    C.each(shapes, placement, edges, composite, obstacle, raster)

def at(e):
    return '%s:%s' % (rel(e.file), e.line)

def rel(f):
    return f.split('/repo/')[-1].split('/src/')[-1] if f else '?'

def xy(v):
    return fld(v, '0', 'r'), fld(v, '1', 'r')

def shapes(C):
    for cls in ('RegularPolygonShape', 'CircleShape'):
        k = C.func('Planner::%s::%s' % (cls, cls), 2)
        f = C.P.F[k]
        w = C.where(k)
        R, N = sym(f['ps'][0]['n'], 'r'), sym(f['ps'][1]['n'], 'i')
        I = C.run(k)
        v = fld(I.read(I.S, I.deref(this, 'Planner::' + cls)), 'm_vertices', 'o')
        d = vdesc(I, v)
        if len(d) != 1 or d[0][0] != 'rep' or d[0][3] is None:
            C.ob('outline', 'vertices of ' + cls, w, None, clip(v))
            continue
        _, L, x, n = d[0]
        i = raw('iv', L.id)
        C.same('outline', '%s has the number of vertices asked for' % cls, w, n, N)
        ang = mul(const(2), PI, i, inv(N))
        r = R if cls.startswith('Reg') else mul(R, inv(cos_(mul(PI, inv(N)))))
        for c, t in zip('01', (mul(r, cos_(ang)), mul(r, sin_(ang)))):
            C.same('outline', 'coordinate %s of vertex i of %s' % (c, cls), w, fld(x, c, 'r'), t)
    k = C.func('Planner::RectangleShape::RectangleShape', 2)
    f = C.P.F[k]
    w = C.where(k)
    I = C.run(k)
    v = fld(I.read(I.S, I.deref(this, 'Planner::RectangleShape')), 'm_vertices', 'o')
    d = vdesc(I, v)
    if any(s[0] != 'elem' for s in d):
        C.ob('outline', 'corners of the rectangle', w, None, clip(v))
    else:
        X, Y = [mul(half(), sym(p['n'], 'r')) for p in f['ps'][:2]]
        got = [xy(s[1]) for s in d]
        ring = [(X, Y), (neg(X), Y), (neg(X), neg(Y)), (X, neg(Y))]
        rings = [r[i:] + r[:i] for r in (ring, ring[::-1]) for i in range(4)]
        ok = len(got) == 4 and any(all(same_(a, b) for p, q in zip(got, r) for a, b in zip(p, q)) for r in rings)
        C.ob('outline', 'a rectangle has its corners at half its sides, in ring order', w, ok, clip(v))

def half():
    return div(ONE, const(2))

def same_(a, b):
    return decide_same(a, b)[0] is True

def cos_(x):
    return fn1('cos', x)

def sin_(x):
    return fn1('sin', x)

def placement(C):
    """a vertex is turned by the heading and moved to the position"""
    k = C.func('Planner::PolygonShape::GetVerticesPosition', 2)
    f = C.P.F[k]
    w = C.where(k)
    I = C.run(k)
    P, out = sym(f['ps'][0]['n'], 'o'), f['ps'][1]['n']
    ms = fld(raw('obj', this), 'm_vertices', 'o')
    res = I.read(I.S, LV(('P', out, 'o'), (), f['ps'][1]['t']))
    d = vdesc(I, res)
    if len(d) != 2 or d[0][0] != 'base' or d[1][0] != 'rep' or d[1][3] is None:
        C.ob('placement', 'vertices appended by GetVerticesPosition', w, None, clip(res))
        return
    _, L, x, n = d[1]
    C.same('placement', 'every vertex is placed', w, n, size(ms))
    i = raw('iv', L.id)
    vt = vget(ms, i, 'o')
    vx, vy = xy(vt)
    th = fld(P, 'theta', 'r')
    px, py = xy(fld(P, 'position', 'o'))
    c, s = cos_(th), sin_(th)
    C.same('placement', 'x of a placed vertex', w, fld(x, '0', 'r'), add(px, sub(mul(c, vx), mul(s, vy))))
    C.same('placement', 'y of a placed vertex', w, fld(x, '1', 'r'), add(py, add(mul(s, vx), mul(c, vy))))

def edges(C):
    k = C.func('Planner::PolygonShape::GetGridCellsPosition', 3)
    f = C.P.F[k]
    w = C.where(k)
    I = C.run(k, opaque=('RasterizeLine', 'GetVerticesPosition'))
    ms = fld(raw('obj', this), 'm_vertices', 'o')
    P = sym(f['ps'][1]['n'], 'o')
    calls = [e for e in I.events if e.kind == 'call' and e.name == 'RasterizeLine']
    C.need(calls, 'RasterizeLine calls')
    got = []
    for e in calls:
        a, b = e.args[1], e.args[2]
        C.ob('edges', 'edges are added to the given list of cells on the given map', at(e), True if str(e.args[0]) == f['ps'][0]['n'] and f['ps'][2]['n'] in str(e.args[3]) else None, clip(e.args[3]))
        seqs = [x.a[0] for x in (a, b) if x.op == 'vget']
        if len(seqs) != 2 or seqs[0] is not seqs[1] or not (seqs[0].op == 'app' and 'GetVerticesPosition' in seqs[0].a[0]):
            C.ob('edges', 'an edge joins two placed vertices', at(e), None, '%s, %s' % (clip(a), clip(b)))
            continue
        C.ob('edges', 'the vertices are those of this pose', at(e), seqs[0].a[3] is P, clip(seqs[0]))
        got.append((e, a.a[1], b.a[1]))
    if len(got) != len(calls):
        return
    n = size(ms)
    N = sym('pos:n', 'i')
    def norm(t):
        t = subst(t, {n: N})
        m = {x: N for x in subterms(t) if x.op == 'size'}
        return subst(t, m) if m else t
    loops = [(e, norm(a), norm(b)) for e, a, b in got]
    # every i in [0, n) is an edge (i, i+1 mod n)
    if len(loops) == 1:
        e, a, b = loops[0]
        L = I.loops.get(e.loops) if e.loops else None
        if L is None:
            C.ob('edges', 'edges of the polygon', at(e), False, 'only one edge is rasterised')
            return
        t = trips(L)
        if t is None:
            C.ob('edges', 'edges of the polygon', at(e), None, 'loop bound')
            return
        i = raw('iv', L.id)
        t = norm(t)
        C.same('edges', 'the closed polygon has as many edges as vertices', at(e), t, N)
        g = (le(ZERO, i), lt(i, t), le(ONE, N))
        nxt = add(i, ONE)
        last = eq(i, sub(N, ONE))
        w1 = ite(last, ZERO, nxt)
        ok = None
        for p, q in ((a, b), (b, a)):
            if modsame(p, i, g, N, i) and modsame(q, w1, g, N, i):
                ok = True
        w2 = ite(eq(i, ZERO), sub(N, ONE), sub(i, ONE))
        for p, q in ((a, b), (b, a)):
            if modsame(p, i, g, N, i) and modsame(q, w2, g, N, i):
                ok = True
        if ok is None and not any(x.op in VAGUE + LOOPY for y in (a, b) for x in subterms(y)):
            ok = False
        C.ob('edges', 'edge i joins vertex i and its successor, cyclically', at(e), ok, '%s - %s' % (clip(a), clip(b)))
        early = any(kk != 'normal' for kk, *_ in L.exits)
        extra = [l for l in literals(e.guard) if not entails((L.cond,), l)]
        C.ob('edges', 'no edge is left out', at(e), False if early else True if not extra else None, clip_all(extra))
    elif len(loops) == 2:
        # n-1 edges in a loop and the closing edge apart
        lo = [x for x in loops if x[0].loops]
        cl = [x for x in loops if not x[0].loops]
        if len(lo) != 1 or len(cl) != 1:
            C.ob('edges', 'edges of the polygon', w, None)
            return
        e, a, b = lo[0]
        L = I.loops.get(e.loops)
        t = trips(L)
        i = raw('iv', L.id)
        if t is None:
            C.ob('edges', 'edges of the polygon', at(e), None, 'loop bound')
            return
        d = sub(a, i)
        inner = isnum(sub(b, a)) and abs(sub(b, a).a[1]) == 1
        e2, a2, b2 = cl[0]
        closing = {str(a2), str(b2)} == {str(ZERO), str(sub(N, ONE))}
        C.same('edges', 'the open chain has one edge less than vertices', at(e), norm(t), sub(N, ONE))
        C.ob('edges', 'edge i joins consecutive vertices and the closing edge the last and the first', at(e2), True if inner and closing else None, '%s - %s' % (clip(a2), clip(b2)))
    else:
        C.ob('edges', 'edges of the polygon', w, None, '%d call sites' % len(loops))

def clip_all(ls):
    return '; '.join(clip(l) for l in ls)[:200]

def modsame(t, want, g, N, i):
    """equality for every 0 <= i < N with i % N and (i + 1) % N evaluated by integer cases"""
    for n in range(1, 6):
        for k in range(n):
            m = {N: const(n), i: const(k)}
            x, y = subst(t, m), subst(want, m)
            r = RI(0)
            try:
                if r.ev(x) != r.ev(y):
                    return False
            except (TypeError, ValueError):
                return False
    return True

def composite(C):
    for nm, np_ in (('GetGridCellsPosition', 3), ('GetVerticesPosition', 2)):
        k = C.func('Planner::CompositeShape::' + nm, np_)
        f = C.P.F[k]
        w = C.where(k)
        I = C.run(k, opaque=(nm,))
        ev = [e for e in I.events if e.kind == 'call' and e.name == nm]
        C.ob('composite', 'a composite delegates %s to its parts' % nm, w, bool(ev), 'no part is asked')
        ch = fld(raw('obj', this), 'm_children', 'o')
        for e in ev:
            L = None
            iv = [x for x in subterms(e.recv) if x.op == 'iv'] if e.recv is not None else []
            if len(iv) == 1:
                L = I.loops.get(iv[0].a[0])
            if L is None or (trips(L) is None and all(kk == 'normal' for kk, *_ in L.exits)):
                C.ob('composite', 'every part is asked (%s)' % nm, at(e), None)
                continue
            if any(kk != 'normal' for kk, *_ in L.exits):
                C.ob('composite', 'every part is asked (%s)' % nm, at(e), False, 'the loop over the parts may end early')
                continue
            C.same('composite', 'every part is asked (%s)' % nm, at(e), trips(L), size(ch))
            C.same('composite', 'part i is asked (%s)' % nm, at(e), e.recv, raw('obj', vget(ch, raw('iv', L.id), 'p')))
            extra = [l for l in literals(e.guard) if not entails((L.cond,), l)]
            C.ob('composite', 'no part is left out (%s)' % nm, at(e), True if not extra else None if any('null' in str(l) for l in extra) else False, clip_all(extra))
            for j, p in enumerate(f['ps'][:-1]):
                C.same('composite', 'a part is asked for the same %s (%s)' % (p['n'], nm), at(e), e.args[j], sym(p['n'], 'o'))
            C.ob('composite', 'parts add to the same list (%s)' % nm, at(e), True if f['ps'][-1]['n'] in str(e.args[-1]) else False, clip(e.args[-1]))

def obstacle(C):
    for nm, q, j in (('GetBoundaryGridCellPosition', 'GetGridCellsPosition', 1), ('GetBoundaryWorldPosition', 'GetVerticesPosition', 0)):
        k = C.func('Planner::Obstacle::' + nm)
        w = C.where(k)
        I = C.run(k, opaque=('GetGridCellsPosition', 'GetVerticesPosition'))
        ev = [e for e in I.events if e.kind == 'call' and e.name == q]
        C.ob('obstacle', '%s asks the shape' % nm, w, len(ev) == 1, '%d calls' % len(ev))
        for e in ev:
            C.same('obstacle', '%s uses the pose of the obstacle' % nm, at(e), e.args[j], fld(raw('obj', this), 'm_pose', 'o'))
            C.same('obstacle', '%s asks the shape of the obstacle' % nm, at(e), e.recv, raw('obj', fld(raw('obj', this), 'm_shape', 'p')))
            if j == 1:
                C.ob('obstacle', '%s uses the given map' % nm, at(e), str(e.args[0]) == C.P.F[k]['ps'][0]['n'], clip(e.args[0]))
        if I.ret is not None:
            C.ob('obstacle', '%s returns what the shape produced' % nm, w, True if I.ret.op == 'app' and I.ret.a[0].startswith('out:' + q) else None, clip(I.ret))

def raster(C):
    k = C.func('Planner::Shape::RasterizeLine', 4)
    f = C.P.F[k]
    w = C.where(k)
    I = C.run(k, opaque=('WorldPositionToGridCell',))
    cells = {}
    for e in I.events:
        if e.kind == 'call' and e.name == 'WorldPositionToGridCell':
            C.ob('raster', 'line ends outside the map are not replaced by the invalid cell', at(e), True if e.args[-1] is FALSE else False if e.args[-1] is TRUE else None, clip(e.args[-1]))
            cells[str(e.args[0])] = e.res if getattr(e, 'res', None) is not None else None
    p = [f['ps'][1]['n'], f['ps'][2]['n']]
    push = [e for e in I.events if e.kind == 'call' and e.name in ('push_back', 'emplace_back') and e.args]
    C.need(push, 'cells produced by RasterizeLine')
    if len(push) != 1:
        C.ob('raster', 'line cells', w, None, '%d producers' % len(push))
        return
    e = push[0]
    v = e.args[0] if len(e.args) == 1 else st('Planner::GridCellPosition', None, {'row': e.args[0], 'col': e.args[1]})
    atoms = {}
    for t in [v] + list(literals(e.guard)):
        for x in subterms(t):
            if x.op == 'app' and x.a[0] == 'call:WorldPositionToGridCell':
                for q in p:
                    if any(str(y) == q for y in x.a[2:]):
                        atoms[q] = x
    if len(atoms) != 2:
        C.ob('raster', 'line ends', w, None, str(list(atoms)))
        return
    iv = [x for x in subterms(v) if x.op == 'iv']
    lids = {x.a[0] for x in subterms(v) if x.op == 'iv'} | {x.a[0][0] for x in subterms(v) if x.op == 'phi'}
    if len(lids) != 1:
        C.ob('raster', 'line cells', w, None, 'loops %s' % (lids,))
        return
    L = I.loops[lids.pop()]
    ivt = raw('iv', L.id)
    A, B = sym('pos0:a', 'i'), sym('pos0:b', 'i')
    r0, c0 = sym('r0', 'i'), sym('c0', 'i')
    n = 0
    for sr in (1, -1):
        for sc in (1, -1):
            for steep in (False, True):
                n += 1
                octant(C, I, L, e, v, atoms, p, sr, sc, steep, w)
    C.count('octants', n)

def octant(C, I, L, e, v, atoms, p, sr, sc, steep, w):
    a, b = sym('major', 'i'), sym('minor', 'i')
    r0, c0 = sym('r0', 'i'), sym('c0', 'i')
    g = [le(ZERO, b), lt(b, a) if steep else le(b, a)]
    dr, dc = (b, a) if steep else (a, b)
    r1, c1 = add(r0, mul(const(sr), dr)), add(c0, mul(const(sc), dc))
    m = {}
    for q, (r, c) in zip(p, ((r0, c0), (r1, c1))):
        m[fld(atoms[q], 'row', 'i')] = r
        m[fld(atoms[q], 'col', 'i')] = c
    # strict displacement signs: the degenerate cases belong to the other octants
    nm = 'octant (%+d rows, %+d columns, %s)' % (sr, sc, 'steep' if steep else 'flat')
    if sr < 0:
        g.append(lt(ZERO, dr))
    if sc < 0:
        g.append(lt(ZERO, dc))
    g = tuple(g)
    def z(t):
        return deep(subst(t, m), g)
    i = raw('iv', L.id)
    ini = {}
    nxt = {}
    for key in L.init:
        ph = L.phi.get(key) if hasattr(L, 'phi') and isinstance(L.phi, dict) else None
        if ph is not None:
            ini[ph] = L.init[key]
            nxt[ph] = L.next.get(key, ph)
    V = z(v)
    row, col = fld(V, 'row', 'i'), fld(V, 'col', 'i')
    zi = {x: z(y) for x, y in ini.items() if ty(x) == 'i'}
    zn = {x: z(y) for x, y in nxt.items() if ty(x) == 'i'}
    first = [z(subst(subst(x, {i: ZERO}), zi)) for x in (row, col)]
    second = [subst(subst(x, {i: add(i, ONE)}), zn) for x in (row, col)]
    ends = [(r0, c0), (r1, c1)]
    fit = None
    for j, E_ in enumerate(ends):
        if all(decide_same(x, y, g)[0] is True for x, y in zip(first, E_)):
            fit = j
    vague = any(x.op in VAGUE + LOOPY for t in first for x in subterms(t))
    C.ob('raster', 'the first cell of a line is the cell of one of its ends: ' + nm, at(e), True if fit is not None else None if vague else False, '%s, %s' % (clip(first[0]), clip(first[1])))
    for x, y, ax in ((row, second[0], 'row'), (col, second[1], 'column')):
        d = z(sub(y, x))
        ds = leaves(d)
        ok = True
        for t in ds:
            if not (isnum(t) and abs(t.a[1]) <= 1):
                ok = decide_implied(g, and_(le(const(-1), d), le(d, ONE)))
                break
        C.ob('raster', 'consecutive cells are adjacent in their %s: %s' % (ax, nm), at(e), ok, clip(d))
    # number of cells
    cond = z(L.cond)
    t = trips_of(cond, i)
    if t is None:
        C.ob('raster', 'a line has as many cells as its longer extent: ' + nm, at(e), None, clip(cond))
    else:
        C.same('raster', 'a line has as many cells as its longer extent: ' + nm, at(e), z(t), add(a, ONE), guard=g)
    early = [kk for kk, *_ in L.exits if kk != 'normal']
    C.ob('raster', 'no line ends early: ' + nm, at(e), not early, str(early))
    # clipping drops only cells outside
    mp = sym('map', 'o')
    Rr = [x for l in e.guard for x in subterms(l) if x.op == 'fld' and x.a[1] == 'm_rows']
    Cc = [x for l in e.guard for x in subterms(l) if x.op == 'fld' and x.a[1] == 'm_columns']
    R = Rr[0] if Rr else sym('rows', 'i')
    K = Cc[0] if Cc else sym('columns', 'i')
    inside = (le(ZERO, row), lt(row, R), le(ZERO, col), lt(col, K), cond, le(ZERO, i))
    ok = True
    dd = ''
    for l in literals(e.guard):
        l2 = z(l)
        if l2 is TRUE or entails(g + inside, l2):
            continue
        r = decide_implied(g + inside, l2)
        if r is not True:
            ok = r
            dd = clip(l2)
            break
    C.ob('raster', 'only cells outside the map are left out: ' + nm, at(e), ok, 'kept only if ' + dd)
    # the error term
    if fit is not None:
        invariant(C, L, e, nm, g, a, b, row, col, zi, zn, i, ends[fit], ends[1 - fit], steep, z)

def trips_of(c, iv):
    if c.op in ('pos', 'nneg'):
        rest = add(c.a[0], iv)
        if iv not in subterms(rest):
            return rest if c.op == 'pos' else add(rest, ONE)
    return None

def leaves(t):
    if t.op == 'ite':
        return leaves(t.a[1]) + leaves(t.a[2])
    p = pdict(t)
    if p:
        for m_, c in p.items():
            for at_, ex in m_:
                if at_.op == 'ite':
                    return leaves(subst(t, {at_: at_.a[1]})) + leaves(subst(t, {at_: at_.a[2]}))
    return [t]

def deep(t, g, n=12):
    for _ in range(n):
        t2 = simp_under(t, g)
        ch = {}
        for x in subterms(t2):
            if x.op == 'abs':
                if entails(g, le(ZERO, x.a[0])):
                    ch[x] = x.a[0]
                elif entails(g, le(x.a[0], ZERO)):
                    ch[x] = neg(x.a[0])
            elif x.op == 'ite':
                if entails(g, x.a[0]):
                    ch[x] = x.a[1]
                elif entails(g, not_(x.a[0])):
                    ch[x] = x.a[2]
        if ch:
            t2 = subst(t2, ch)
        if t2 is t:
            return t
        t = t2
    return t

def invariant(C, L, e, nm, g, a, b, row, col, zi, zn, i, frm, to, steep, z):
    """error term E: E + d*i = E0 + X*k with k the steps taken on the minor axis and E kept in an interval of length X, so that
    after `major` steps k = major*d/X, which must be the minor extent"""
    what = 'a line ends in the cell of its other end: ' + nm
    minor = row if steep else col
    tgt, src = (to[0], frm[0]) if steep else (to[1], frm[1])
    if minor not in zn:
        p = pdict(minor)
        ph = [x for x in subterms(minor) if x.op == 'phi']
        if len(ph) != 1 or minor is not ph[0]:
            C.ob('raster', what, at(e), None, clip(minor))
            return
    Y = minor
    g = g + (lt(ZERO, b),)                      # with no minor extent the error term never becomes negative
    dY = deep(z(sub(zn[Y], Y)), g)
    if dY.op != 'ite':
        C.ob('raster', what, at(e), None, clip(dY))
        return
    c = dY.a[0]
    s1, s2 = dY.a[1], dY.a[2]
    if s1 is ZERO:
        c, s1, s2 = not_(c), s2, s1
    if s2 is not ZERO or not isnum(s1):
        C.ob('raster', what, at(e), None, clip(dY))
        return
    Es = [x for x in subterms(c) if x.op == 'phi' and x in zn and x is not Y]
    if len(Es) != 1:
        C.ob('raster', what, at(e), None, clip(c))
        return
    E = Es[0]
    step = z(simp_under(zn[E], g + (c,)))
    keep = z(simp_under(zn[E], g + (not_(c),)))
    d = sub(E, keep)
    X = add(sub(step, E), d)
    if any(x in (E, Y, i) for t in (d, X) for x in subterms(t)) or any(x.op in VAGUE + LOOPY for t in (d, X) for x in subterms(t)):
        C.ob('raster', what, at(e), None, '%s / %s' % (clip(step), clip(keep)))
        return
    t = sub(E, d)
    strict = c is lt(t, ZERO)
    weak = c is le(t, ZERO)
    if not (strict or weak):
        C.ob('raster', what, at(e), None, clip(c))
        return
    C.same('raster', 'the error term gives the line its slope: ' + nm, at(e), mul(d, a), mul(X, b), guard=g)
    g1 = g + (lt(ZERO, a),)
    E0 = zi[E]
    lo, hi = (le(ZERO, E0), lt(E0, X)) if strict else (lt(ZERO, E0), le(E0, X))
    # E0 = major / 2, rounded either way
    if E0.op == 'idiv' and isnum(E0.a[1]) and E0.a[1].a[1] > 0:
        q = sym('q', 'i')
        dn = E0.a[1]
        g1 = g1 + (le(mul(q, dn), E0.a[0]), lt(E0.a[0], mul(add(q, ONE), dn)))
        lo, hi = subst(lo, {E0: q}), subst(hi, {E0: q})
    C.implied('raster', 'the error term starts in its range: ' + nm, at(e), g1, and_(lo, hi))
    rng = (le(ZERO, E), lt(E, X)) if strict else (lt(ZERO, E), le(E, X))
    for br, val, gg in (('a minor step', step, c), ('no minor step', keep, not_(c))):
        want = and_(le(ZERO, val), lt(val, X)) if strict else and_(lt(ZERO, val), le(val, X))
        C.implied('raster', 'the error term stays in its range over %s: %s' % (br, nm), at(e), g1 + rng + (gg,), want)
    sgn = int(s1.a[1])
    # the minor axis runs towards the other end
    C.same('raster', 'minor steps lead towards the other end: ' + nm, at(e), add(src, mul(const(sgn), b)), tgt, guard=g)
