"""Effect summaries of adding and removing an obstacle: the final registry, identifier set, occupancy matrix and distance-map
updates are compared with the required ones for both the registered and the unregistered case; the identifier chooser is shown
to return a value outside the set of used identifiers."""
from lib import *
TECHNIQUE = 'static effect summary (symbolic post-state of containers, per-cell effects of the boundary loop) over the clang AST'

CLS = 'Planner::ObstacleListOccupancyMap'
OPQ = ('FindSmallestIDAvailable', 'GetBoundaryGridCellPosition', 'SetObstacle', 'UnsetObstacle')
this = sym('this', 'p')

def run(C):
    C.assume.append('the shape and pose of an obstacle are not changed while it is registered; InitializeSize has been called')
    C.each(lambda C: change(C, 'AddObstacle', True), lambda C: change(C, 'RemoveObstacle', False), fresh, occupied)

def cellof(t):
    """the boundary cell an index or argument denotes: (sequence, position)"""
    for x in subterms(t):
        if x.op == 'vget' and x.a[0].op == 'app' and 'GetBoundaryGridCellPosition' in x.a[0].a[0]:
            return x
    return None

def change(C, name, adding):
    k = C.func(CLS + '::' + name, 1)
    w = C.where(k)
    f = C.P.F[k]
    I = C.run(k, opaque=OPQ)
    if name == 'AddObstacle' and not any(e.name == 'FindSmallestIDAvailable' for e in I.events):
        pass
    obst = sym(f['ps'][0]['n'], 'p')
    o0 = I.read(I.base(I.S, ('O', this, None)), I.deref(this, CLS)) if False else raw('obj', this)
    o = I.read(I.S, I.deref(this, CLS))
    reg0, ids0 = fld(o0, 'm_obstacles', 'o'), fld(o0, 'm_obstacleIDs', 'o')
    reg, ids = fld(o, 'm_obstacles', 'o'), fld(o, 'm_obstacleIDs', 'o')
    if any(x.op in VAGUE + LOOPY for t in (reg, ids) for x in subterms(t)):
        C.ob('registry', 'registry after ' + name, w, None, clip(reg))
        return
    hs = [x for t in (reg, I.ret) for x in subterms(t) if x.op == 'has' and x.a[0] is reg0]
    C.need(hs, 'membership test of %s' % name)
    has = hs[0]
    key = has.a[1]
    mem = (not_(has),) if adding else (has,)
    rem = (has,) if adding else (not_(has),)
    # outcome
    C.same('outcome', '%s reports whether it changed the map' % name, w, I.ret, not_(has) if adding else has)
    C.ob('outcome', '%s tests for the given obstacle' % name, w, key is obst or key.a[0] == obst.a[0] if key.op == 'sym' else None, clip(key))
    # unchanged otherwise
    C.same('registry', '%s leaves the registry unchanged when it reports false' % name, w, noins(simp_under(reg, rem), key) if adding else simp_under(reg, rem), reg0)
    C.same('registry', '%s leaves the identifiers unchanged when it reports false' % name, w, simp_under(ids, rem), ids0)
    reg1, ids1 = simp_under(reg, mem), simp_under(ids, mem)
    id_ = None
    if adding:
        ok = reg1.op in ('mset', 'ins', 'mins') and reg1.a[0] is reg0 and reg1.a[1] is key
        id_ = reg1.a[2] if ok and len(reg1.a) > 2 else None
        C.ob('registry', 'AddObstacle registers the obstacle', w, True if ok else False if reg1 is reg0 else None, clip(reg1))
        if id_ is not None:
            ok = ids1.op == 'ins' and ids1.a[0] is ids0
            C.ob('registry', 'AddObstacle reserves the identifier it registered', w, (ids1.a[1] is id_) if ok else False if ids1 is ids0 else None, '%s for %s' % (clip(ids1), clip(id_)))
            C.ob('fresh', 'the identifier is chosen among those not in use', w, True if id_.op == 'app' and 'FindSmallestIDAvailable' in id_.a[0] and id_.a[-1] is ids0 else freshness(I, subst(id_, {size(reg0): size(ids0)}), (), ids0), clip(id_))
    else:
        ok = reg1.op == 'del' and reg1.a[0] is reg0
        C.ob('registry', 'RemoveObstacle unregisters the obstacle', w, (reg1.a[1] is key) if ok else False if reg1 is reg0 else None, clip(reg1))
        ok = ids1.op == 'del' and ids1.a[0] is ids0
        C.same('registry', 'RemoveObstacle frees the identifier of the obstacle', w, ids1.a[1], next((x for x in subterms(ids1.a[1]) if x.op == 'app' and x.a[0] == 'mget' and x.a[2] is reg0 and x.a[3] is key), app('mget', reg0, key, ty='i'))) if ok else C.ob('registry', 'RemoveObstacle frees the identifier of the obstacle', w, False if ids1 is ids0 else None, clip(ids1))
    # cells
    mat = fld(o0, 'm_occupancyMatrix', 'p')
    dm = fld(o0, 'm_obstacleDistanceMap', 'p')
    pre = (not_(eq(mat, NULL)),) + mem
    want_call = 'SetObstacle' if adding else 'UnsetObstacle'
    nst = ncl = 0
    for e in I.events:
        if e.kind == 'store' and e.recvlv is not None and e.recvlv.root[0] == 'O':
            p = e.recvlv.root[1]
            if not (p.op == 'fld' and p.a[1] == 'm_data' and 'm_occupancyMatrix' in str(p)):
                continue
            idx = [x for x in e.recvlv.path if x[0] == 'i']
            c = cellof(idx[0][1]) if idx else None
            if c is None:
                C.ob('cells', name + ' writes the occupancy matrix only at boundary cells of the obstacle', at(e), None, clip(idx[0][1]) if idx else '')
                continue
            nst += 1
            cols = fld(raw('obj', mat), 'columns', 'i')
            C.same('cells', name + ' writes the entry of the boundary cell itself', at(e), idx[0][1], add(fld(c, 'col', 'i'), mul(fld(c, 'row', 'i'), cols)))
            if adding and id_ is not None:
                C.same('cells', 'a boundary cell is marked with the identifier registered', at(e), e.args[0], id_)
            elif not adding:
                C.implied('cells', 'a cleared cell is marked free', at(e), (), lt(e.args[0], ZERO))
            cover(C, I, e, c, pre, name + ' updates every boundary cell in the occupancy matrix', obst)
        if e.kind == 'call' and e.name in ('SetObstacle', 'UnsetObstacle') and e.args:
            c = e.args[0]
            C.ob('cells', name + ' informs the distance map the right way', at(e), e.name == want_call, e.name)
            cc = cellof(c)
            ncl += 1
            if cc is None:
                C.ob('cells', name + ' informs the distance map of the boundary cells', at(e), None, clip(c))
                continue
            C.same('cells', name + ' informs the distance map of the boundary cell itself', at(e), c, cc) if c is not cc else C.ob('cells', name + ' informs the distance map of the boundary cell itself', at(e), True)
            cover(C, I, e, cc, pre, name + ' informs the distance map of every boundary cell', obst)
    C.ob('cells', name + ' updates the occupancy matrix', w, nst > 0, 'no write to the occupancy matrix')
    C.ob('cells', name + ' updates the distance map', w, ncl > 0, 'the distance map is not told')

def noins(t, key):
    """inserting a key that is present changes nothing"""
    return t.a[0] if t.op == 'ins' and t.a[1] is key else t

def at(e):
    return '%s:%s' % (rel(e.file), e.line)

def rel(f):
    return f.split('/repo/')[-1] if f else '?'

def cover(C, I, e, c, pre, what, obst):
    seq, pos = c.a[0], c.a[1]
    C.ob('cells', what + ' (of this obstacle)', at(e), True if seq.a[2] is raw('obj', obst) or str(seq.a[2]) == 'obj(%s)' % obst.a[0] else None, clip(seq))
    L = I.loops.get(pos.a[0]) if pos.op == 'iv' else None
    if L is None:
        C.ob('cells', what, at(e), None, 'cell %s' % clip(pos))
        return
    n = trips(L)
    if any(k not in ('normal',) for k, *_ in L.exits):
        C.ob('cells', what, at(e), False, 'the loop over the boundary cells may end early')
        return
    if n is None:
        C.ob('cells', what, at(e), None, 'loop bound')
        return
    C.same('cells', what + ' (all of them)', at(e), n, size(seq))
    inside = []
    for x in (fld(c, 'row', 'i'), fld(c, 'col', 'i')):
        inside.append(le(ZERO, x))
    r = [fld(raw('obj', this), 'm_rows', 'i'), fld(raw('obj', this), 'm_columns', 'i')]
    inside += [lt(fld(c, 'row', 'i'), r[0]), lt(fld(c, 'col', 'i'), r[1])]
    g = tuple(pre) + (L.cond,) + tuple(inside)
    ok = True
    for l in literals(e.guard):
        if any(x.op == 'iv' and x.a[0] != L.id for x in subterms(l)):
            continue                            # the normal end of an earlier loop
        d = decide_implied(g, l)
        if d is not True and find_counter(g, l):
            d = False
        if d is not True:
            ok = d
            break
    C.ob('cells', what + ' (unconditionally)', at(e), ok, '' if ok else 'only if ' + clip(l))

def fresh(C):
    """the identifier returned is not in the set"""
    k = C.func(r'Planner::(.*::)?FindSmallestIDAvailable', 1)
    w = C.where(k)
    f = C.P.F[k]
    S = sym(f['ps'][0]['n'], 'o')
    I = C.run(k)
    rets = [e for e in I.events if e.kind == 'return' and e.name == f['n']]
    n = 0
    for e in rets:
        v = e.args[0]
        g = literals(e.guard)
        n += 1
        d = clip(v)
        ok = freshness(I, v, g, S)
        C.ob('fresh', 'the identifier returned is not in use', '%s:%s' % (rel(e.file), e.line), ok, d)
    C.need(n, 'returns of FindSmallestIDAvailable')

def gap(I, v, q, S):
    """v = *adjacent_find(first, last, a + 1 != b) + 1: the first element whose successor is missing"""
    r = predicate(I, q)
    if r is None:
        return None
    a, b = A_, B_
    der = [x for x in subterms(v) if (x.op == 'app' and x.a[0] == 'deref' or x.op == 'deref')]
    if len(der) != 1:
        return None
    off = sub(v, der[0])
    # a in S, next larger element b > a with pred(a, b): a + off must lie strictly between
    return decide_implied((r, lt(a, b)), and_(lt(a, add(a, off)), lt(add(a, off), b)))

def freshness(I, v, g, S):
    if entails(g, eq(size(S), ZERO)):
        return True                             # nothing is in use
    if any(l.op == 'not' and l.a[0].op == 'has' and l.a[0].a[0] is S and l.a[0].a[1] is v for l in g):
        return True
    if entails(g, lt(v, app('elem', S, ZERO, ty='i'))):
        return True                             # below the smallest
    if entails(g, lt(app('elem', S, sub(size(S), ONE), ty='i'), v)):
        return True                             # above the largest
    q = [x for x in subterms(v) if x.op == 'app' and x.a[0] == 'alg:adjacent_find']
    if q and gap(I, v, q[0], S) is True:
        return True
    return refute(I, v, g, S)

def refute(I, v, g, S):
    """look for a small set of identifiers that contains the value returned"""
    import itertools
    n = size(S)
    preds = {}
    for r in range(1, 5):
        for sub_ in itertools.combinations(range(5), r):
            def s2(t):
                m2 = {n: const(r)}
                t = subst(t, m2)
                m2 = {}
                for x in subterms(t):
                    if x.op == 'app' and x.a[0] == 'elem' and x.a[2] is S and isnum(x.a[3]) and 0 <= int(x.a[3].a[1]) < r:
                        m2[x] = const(sub_[int(x.a[3].a[1])])
                    elif x.op == 'has' and x.a[0] is S and isnum(x.a[1]):
                        m2[x] = TRUE if int(x.a[1].a[1]) in sub_ else FALSE
                    elif x.op == 'app' and x.a[0] == 'deref' or x.op == 'eq':
                        q = [y for y in subterms(x) if y.op == 'app' and y.a[0] == 'alg:adjacent_find']
                        if not q:
                            continue
                        if q[0] not in preds:
                            preds[q[0]] = predicate(I, q[0])
                        pr = preds[q[0]]
                        if pr is None:
                            continue
                        hit = [a for a, b in zip(sub_, sub_[1:]) if subst(pr, {A_: const(a), B_: const(b)}) is TRUE]
                        if x.op == 'eq':
                            m2[x] = FALSE if hit else TRUE
                        elif hit:
                            m2[x] = const(hit[0])
                return subst(t, m2) if m2 else t
            gs = [s2(l) for l in g]
            vv = s2(v)
            if all(x is TRUE for x in gs) and isnum(vv) and int(vv.a[1]) in sub_:
                return False
    return None

A_, B_ = sym('a#', 'i'), sym('b#', 'i')
def predicate(I, q):
    lam = [x for x in subterms(q) if x.op == 'lam']
    if len(lam) != 1 or lam[0] not in I.lams:
        return None
    try:
        r = I.call_lambda(lam[0], [A_, B_], I.S.fork(), I.lams[lam[0]][3], I.lams[lam[0]][0])
    except Exception:
        return None
    return r if isinstance(r, T) else I.read(I.S, r)

def occupied(C):
    """a cell is occupied exactly when it carries an identifier"""
    k = C.func(CLS + '::IsOccupied', 1)
    f = C.P.F[k]
    I = C.run(k)
    c = sym(f['ps'][0]['n'], 'o')
    o = raw('obj', this)
    mat = fld(o, 'm_occupancyMatrix', 'p')
    I2 = I
    ev = [e for e in I.events if e.kind == 'index' and e.recvlv is not None]
    C.need(ev, 'matrix lookup of IsOccupied')
    v = I.read(I.S, ev[-1].recvlv)
    g = (not_(eq(mat, NULL)),)
    C.same('occupied', 'a cell is occupied exactly when its entry is not negative', C.where(k), simp_under(I.ret, g), le(ZERO, v))
    idx = [x for x in ev[-1].recvlv.path if x[0] == 'i'][0][1]
    C.same('occupied', 'IsOccupied reads the entry of the cell asked about', C.where(k), idx, add(fld(c, 'col', 'i'), mul(fld(c, 'row', 'i'), fld(raw('obj', mat), 'columns', 'i'))))
