"""Index-range analysis. Every function of the library that indexes a map-sized grid or the heuristic table is analysed with its
callees inlined; each index expression is split into row and column and must be implied to lie inside the extents by the
conditions guarding it, the contracts of cell generators (themselves obligations) and the invariants of stored cells."""
from lib import *
import json
TECHNIQUE = 'static index-range dataflow analysis (guard implication per index site) over the clang AST'

ROWS, COLS = sym('rows', 'i'), sym('columns', 'i')
CELL = 'Planner::GridCellPosition'
MAX = const((1 << 31) - 1)

def inr(c, R=ROWS, K=COLS):
    r, k = fld(c, 'row', 'i'), fld(c, 'col', 'i')
    return (le(ZERO, r), lt(r, R), le(ZERO, k), lt(k, K))

def canon(t, memo={}):
    """extents of every grid of one map are the same numbers"""
    m = {}
    for x in subterms(t):
        if x.op == 'fld' and x.a[1] in ('rows', 'm_rows'):
            m[x] = ROWS
        elif x.op == 'fld' and x.a[1] in ('columns', 'm_columns'):
            m[x] = COLS
    return subst(t, m) if m else t

def facts(ts, queue_ok=('m_open', 'm_voroQ')):
    """what is known about the cells occurring in the terms"""
    out = []
    seen = set()
    for t in ts:
        for x in subterms(t):
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'vget':
                base = x.a[0]
                if base.op == 'app' and base.a[0] in ('call:GetNeighbors', 'call:GetBoundaryGridCellPosition'):
                    if base.a[0].endswith('Neighbors') and len(base.a) >= 5:
                        out += inr(x, base.a[-2], base.a[-1])
                    else:
                        out += inr(x)
                elif is_cells(base):
                    out.append(or_(not_(and_(le(ZERO, fld(x, 'row', 'i')), le(ZERO, fld(x, 'col', 'i')))), and_(*inr(x))))
            elif x.op == 'fld' and x.a[1] == 'position' and x.a[0].op == 'app' and x.a[0].a[0] in ('qtop', 'call:Pop', 'call:Top', 'mut:Pop'):
                out += inr(x)
    return out

def is_cells(g):
    """is the array term the storage of a grid of cells?"""
    for x in subterms(g):
        if x.op == 'phi' and x.a[0][1][0] == 'O' and x.a[0][1][2] == 'arr:' + CELL:
            return True
    y = g
    for _ in range(60):
        if y.op == 'obj':
            p = y.a[0]
            return p.op == 'fld' and p.a[1] == 'm_data' and p.a[0].op == 'fld' and p.a[0].a[1] in ('m_obstacle', 'm_edge')
        if y.op in ('vset',):
            y = y.a[0]
            continue
        if y.op == 'ite':
            y = y.a[1]
            continue
        break
    return False

def distfacts(lits):
    """a distance bounded by the distance of actual cells is finite, so its nearest cell is known (C11)"""
    out = []
    for l in lits:
        for x in subterms(l):
            if x.op == 'vget' and ty(x) == 'i' and any(z.op in ('obj', 'phi') for z in subterms(x.a[0])):
                out.append(x)
    return out

OPAQUE_V = ('GetNeighbors', 'GetBoundaryGridCellPosition', 'Interpolate')

def cellparams(C, f):
    ps = f.get('ps', [])
    return any(CELL in p['t'] and 'vector' not in p['t'] for p in ps) or (len(ps) >= 2 and all(C.P.strip(p['t']) in ('int', 'const int') for p in ps[:2]))

def indexes(C, f, cs):
    """does the body index a grid itself or hand a cell to a function that does?"""
    if 'm_data' in json.dumps(f.get('body')):
        return True
    for c in cs:
        g = C.P.F.get(c)
        if g is None:
            continue
        if g['n'] == 'operator[]' and 'Grid' in (g.get('cls') or ''):
            return True
        if cellparams(C, g) and g['n'] not in ('GridCellPosition', 'GetNeighbors', 'operator==', 'operator!=', 'GridCell'):
            return True
    return False

def roots(C):
    """functions of the library that may index a grid, with their parameters' contract"""
    for k, f in sorted(C.P.F.items()):
        fl = rel(f.get('file') or '')
        if not f.get('body') or '/src/' not in '/' + fl:
            continue
        if not any(x in fl for x in ('state_validator/', 'heuristics', 'hybrid_a_star.cpp', 'smoother.cpp')):
            continue
        if f['q'].endswith(('::Visualize',)) and False:
            continue
        yield k, f

def calls(f):
    """names of everything called in a body"""
    out = set()
    def go(n):
        if isinstance(n, dict):
            if n.get('k') == 'call' and n.get('fn'):
                out.add(n['fn'])
            for v in n.values():
                go(v)
        elif isinstance(n, list):
            for v in n:
                go(v)
    go(f.get('body'))
    go(f.get('inits'))
    return out

def run(C):
    C.assume.append('the occupancy map is not resized after a GVD, distance map or heuristic was built for it; squared cell distances fit an int')
    C.each(neighbours, raster, extents, grids, table)

def neighbours(C):
    for k in C.func(r'Planner::GridCellPosition::GetNeighbors', 2, many=True):
        I = C.run(k)
        w = C.where(k)
        f = C.P.F[k]
        n = 0
        me = I.read(I.S, I.deref(sym('this', 'p'), CELL))
        R, K = [sym(p['n'], 'i') for p in f['ps'][:2]]
        pre = (or_(and_(*inr(me, R, K)), or_(lt(fld(me, 'row', 'i'), ZERO), lt(fld(me, 'col', 'i'), ZERO))),)
        for e in I.events:
            if e.kind in ('call', 'push') and e.name in ('push_back', 'emplace_back', 'insert', 'emplace') :
                v = pushed_value(I, e)
                if v is None:
                    C.ob('neighbours', 'a generated neighbour', w, None)
                    continue
                n += 1
                g = tuple(e.guard)
                r, c = fld(v, 'row', 'i'), fld(v, 'col', 'i')
                want = and_(le(ZERO, r), lt(r, R), le(ZERO, c), lt(c, K))
                C.ob('neighbours', 'generated neighbour %d is inside the extents' % n, '%s:%s' % (rel(e.file), e.line), worst(holds(g + (h,), want) for h in (and_(*inr(me, R, K)), lt(fld(me, 'row', 'i'), ZERO), lt(fld(me, 'col', 'i'), ZERO)) if not entails(g, not_(h))), clip(v))
                dr, dc = sub(r, fld(me, 'row', 'i')), sub(c, fld(me, 'col', 'i'))
                if isnum(dr) and isnum(dc):
                    C.ob('neighbours', 'generated neighbour %d is an adjacent cell' % n, '%s:%s' % (rel(e.file), e.line), abs(dr.a[1]) <= 1 and abs(dc.a[1]) <= 1 and (dr.a[1] != 0 or dc.a[1] != 0), clip(v))
        C.count('neighbour generators', n)
        if n == 8:
            # all eight neighbours: each offset exactly once, under exactly its own range condition
            offs = []
            for e in I.events:
                if e.kind in ('call', 'push') and e.name in ('push_back', 'emplace_back'):
                    v = pushed_value(I, e)
                    dr, dc = sub(fld(v, 'row', 'i'), fld(me, 'row', 'i')), sub(fld(v, 'col', 'i'), fld(me, 'col', 'i'))
                    if isnum(dr) and isnum(dc):
                        offs.append((int(dr.a[1]), int(dc.a[1])))
                        C.implied('neighbours', 'neighbour (%d,%d) is generated whenever it is inside' % offs[-1], w, inr(me, R, K) + (le(ZERO, fld(v, 'row', 'i')), lt(fld(v, 'row', 'i'), R), le(ZERO, fld(v, 'col', 'i')), lt(fld(v, 'col', 'i'), K)), and_(*e.guard))
            if len(offs) == 8:
                C.ob('neighbours', 'the eight neighbours are distinct', w, len(set(offs)) == 8, str(offs))

def worst(rs):
    rs = list(rs)
    return False if any(r is False for r in rs) else None if any(r is None for r in rs) else True

def pushed_value(I, e):
    a = e.args
    if e.name == 'push_back' and len(a) == 1:
        return a[0]
    if e.name == 'emplace_back':
        if len(a) == 2:
            return st(CELL, None, {'row': a[0], 'col': a[1]})
        if len(a) == 1:
            return a[0]
    return None

def raster(C):
    for k in C.func(r'Planner::Shape::RasterizeLine', many=True):
        I = C.run(k)
        w = C.where(k)
        n = 0
        for e in I.events:
            if e.kind == 'call' and e.name in ('push_back', 'emplace_back') and e.args:
                v = pushed_value(I, e)
                if v is None or ty(v) != 'o':
                    continue
                n += 1
                g = tuple(canon(x) for x in e.guard)
                C.ob('raster', 'a rasterised boundary cell is inside the map', '%s:%s' % (rel(e.file), e.line), worst(holds(tuple(cg), and_(*inr(simp_under(canon(v), cg)))) for cg in cases(canon(v), g)), clip(v))
        C.need(n, 'cells produced by RasterizeLine')
    for k in C.func(r'Planner::.*Shape::GetGridCellsPosition', many=True):
        I = C.run(k, opaque=('RasterizeLine', 'GetGridCellsPosition', 'GetVerticesPosition'))
        bad = [e for e in I.events if e.kind == 'call' and e.name in ('push_back', 'emplace_back') and e.args and e.args[0].op in ('st', 'fld', 'vget') and 'row' in str(C.P.R.get(CELL, {}).get('fields'))]
        for e in bad:
            v = pushed_value(I, e)
            if v is None:
                continue
            if v.op == 'st' or (e.recvlv is not None and CELL in (C.P.t(e.recvlv.t or '') and (e.recvlv.t or '') or '')):
                C.implied('raster', 'a boundary cell added by a shape is inside the map', '%s:%s' % (rel(e.file), e.line), tuple(canon(x) for x in e.guard), and_(*inr(canon(v))))

def extents(C):
    """every grid of a map is built with the map's extents, rows first"""
    n = 0
    for cls in ('Planner::GVD::ObstacleDistanceMap', 'Planner::GVD::VoronoiDistanceMap', 'Planner::GVD', 'Planner::ObstaclesHeuristic'):
        ks = [k for k, f in C.P.F.items() if f.get('kind') == 'ctor' and f.get('cls') == cls and f.get('body') and len(f['ps']) >= 1 and not any('&&' in p['t'] or cls in p['t'] for p in f['ps'])]
        for k in sorted(ks):
            I = C.run(k)
            for e in I.events:
                if e.kind in ('ctor', 'call') and e.name == 'Grid' and len(e.args) == 3:
                    n += 1
                    a, b = canon(e.args[0]), canon(e.args[1])
                    C.same('extents', 'a grid of %s has the rows of its map' % cls.split('::')[-1], '%s:%s' % (rel(e.file), e.line), a, ROWS)
                    C.same('extents', 'a grid of %s has the columns of its map' % cls.split('::')[-1], '%s:%s' % (rel(e.file), e.line), b, COLS)
    k = C.func(r'Planner::GVD::ObstacleDistanceMap::GetVoronoiDistanceMap', 0)
    I = C.run(k)
    for e in I.events:
        if e.kind in ('ctor', 'call') and e.name == 'Grid' and len(e.args) == 3:
            n += 1
            C.same('extents', 'a grid of the Voronoi map has the rows of the obstacle map', C.where(k), canon(e.args[0]), ROWS)
            C.same('extents', 'a grid of the Voronoi map has the columns of the obstacle map', C.where(k), canon(e.args[1]), COLS)
    k = C.func(r'Planner::OccupancyMap::InitializeSize', 2)
    I = C.run(k, opaque=('ObstacleDistanceMap',))
    o = I.read(I.S, I.deref(sym('this', 'p'), 'Planner::OccupancyMap'))
    for e in I.events:
        if e.kind in ('ctor', 'call') and e.name == 'Grid' and len(e.args) == 3:
            n += 1
            C.same('extents', 'the occupancy matrix has the rows of the map', C.where(k), e.args[0], fld(o, 'm_rows', 'i'))
            C.same('extents', 'the occupancy matrix has the columns of the map', C.where(k), e.args[1], fld(o, 'm_columns', 'i'))
    C.need(n >= 4, 'grid constructions')
    C.count('grid constructions', n)
    for k in C.func(r'Planner::Grid::Grid', 3, many=True) if any(f['q'] == 'Planner::Grid::Grid' for f in C.P.F.values()) else []:
        I = C.run(k)
        f = C.P.F[k]
        r, c = sym(f['ps'][0]['n'], 'i'), sym(f['ps'][1]['n'], 'i')
        for e in I.events:
            if e.kind == 'index' and e.recvlv is not None and e.recvlv.path:
                i = e.recvlv.path[-1][1]
                C.implied('extents', 'a grid is filled inside its storage', C.where(k), e.guard, and_(le(ZERO, i), lt(i, mul(r, c))))
            if e.kind == 'new':
                C.same('extents', 'a grid holds rows x columns entries', C.where(k), e.args[0] if e.args else None, mul(r, c))

def grids(C):
    nf = ns = 0
    allc = set()
    for k, f in C.P.F.items():
        allc |= calls(f)
    for k, f in roots(C):
        if f.get('kind') == 'ctor':
            continue
        if f['q'].endswith('::RebuildVoronoi') and k not in allc:
            continue                            # private and never called
        if '::Grid<' in k or f['q'].startswith('Planner::Grid::'):
            continue
        if f['q'].endswith('::GetNeighbors') or f['q'].endswith('RasterizeLine'):
            continue
        if not indexes(C, f, calls(f)):
            continue
        try:
            I = C.run(k, opaque=OPAQUE_V if 'StateValidatorOccupancyMap' in (f.get('cls') or '') else ('CheckVoro', 'GetNeighbors', 'GetBoundaryGridCellPosition', 'Push', 'Pop', 'Find', 'Remove', 'IsStateValid', 'IsPathValid', 'Solve', 'GetOptimalPath', 'Interpolate'), nomut=('CheckVoro', 'Find', 'IsStateValid', 'IsPathValid'), depth=10)
        except Undecided:
            C.ob('index', 'indexes of ' + f['q'], C.where(k), None)
            continue
        pre = []
        ps = f['ps']
        for p in ps:
            if CELL in p['t'] and 'vector' not in p['t']:
                # a predicate asking whether a cell is usable has no contract
                pre += inr(sym(p['n'], 'o'))
        if len(ps) >= 2 and all(C.P.strip(p['t']) in ('int', 'const int') for p in ps[:2]):
            pre += inr(st(CELL, None, {'row': sym(ps[0]['n'], 'i'), 'col': sym(ps[1]['n'], 'i')}))
        evs = [e for e in I.events if e.kind == 'index' and e.recvlv is not None and e.recvlv.root[0] == 'O' and str(e.recvlv.root[2]).startswith('arr:')]
        done = {}
        for e in evs:
            p = e.recvlv.root[1]
            ix = [x for x in e.recvlv.path if x[0] == 'i']
            if not ix or not (p.op == 'fld' and p.a[1] == 'm_data'):
                continue
            idx = ix[0][1]
            grid = p.a[0]
            colterm = fld(grid, 'columns', 'i')
            g = tuple(canon(x) for x in literals(e.guard))
            idx2 = canon(simp_under(idx, e.guard))
            ok, d, row, col = True, '', None, None
            for cg in cases(idx, e.guard):
                g = tuple(canon(x) for x in literals(cg))
                idx2 = canon(simp_under(idx, cg))
                row, col = parts_of(simp_under(idx, cg), simp_under(e.args[0], cg) if e.args else None, colterm, cg)
                if row is None:
                    row, col = split(idx2)
                if row is None:
                    r = None
                    d = 'index ' + clip(idx2)
                else:
                    F = facts(list(g) + [idx2])
                    F += pairing(I, e, list(g) + [idx2])
                    F = [canon(x) for x in F] + [canon(x) for x in pre] + [le(ONE, ROWS), le(ONE, COLS)]
                    want = and_(le(ZERO, row), lt(row, ROWS), le(ZERO, col), lt(col, COLS))
                    r = holds(tuple(g) + tuple(F), want)
                    if r is not True:
                        d = '%s does not follow from %s' % (clip(want), clip_guard(g))
                if r is not True:
                    ok = r
                    if r is False:
                        break
            if cellparams(C, f) and ok is not True and any(x.op == 'vget' for t in (row, col) if t is not None for x in subterms(t)):
                continue                        # depends on what its callers know; decided where it is inlined
            key = (e.file, e.line, str(row), str(col))
            if key in done and done[key] is not True:
                continue
            done[key] = ok
            ns += 1
            C.ob('index', 'index of %s' % gname(grid), '%s:%s in %s' % (rel(e.file), e.line, f['q']), ok, '' if ok else d)
        if evs:
            nf += 1
        queue_pushes(C, I, f, k, pre)
    C.count('functions indexing grids', nf)
    C.count('index sites', ns)
    C.need(ns > 20, 'grid index sites')

def queue_pushes(C, I, f, k, pre):
    """cells entering a work queue are inside the map"""
    for e in I.events:
        if e.kind != 'call' or not e.args:
            continue
        if e.name in ('push', 'Push', 'emplace') and e.recvlv is not None:
            v = e.args[0]
            cell = fld(v, 'position', 'o') if v.op == 'st' and 'position' in str(v) else None
            if cell is None:
                continue
            g = tuple(canon(x) for x in literals(e.guard))
            cell = canon(simp_under(cell, e.guard))
            F = [canon(x) for x in facts(list(g) + [cell])] + [canon(x) for x in pre]
            C.ob('queue', 'a queued cell is inside the map', '%s:%s in %s' % (rel(e.file), e.line, f['q']), holds(tuple(g) + tuple(F), and_(*inr(cell))), clip(cell))

def cases(idx, guard, depth=3):
    """the guard refined by the conditions the index depends on"""
    t = simp_under(idx, guard)
    for x in subterms(t):
        if x.op == 'ite' and depth > 0:
            out = []
            for c in (x.a[0], not_(x.a[0])):
                if c is FALSE or entails(guard, not_(c)):
                    continue
                out += cases(idx, tuple(guard) + (c,), depth - 1)
            return out
    return [tuple(guard)]

def holds(g, want):
    """every conjunct follows; violated only with a definite counter-interpretation"""
    parts = want.a if want.op == 'and' else (want,)
    res = True
    for p in parts:
        if p is TRUE:
            continue
        r = decide_implied(rel_lits(g, p), p)
        if r is False:
            # confirm with every fact
            r = decide_implied(g, p)
        if r is not False and not entails(rel_lits(g, p), p) and not entails(g, p):
            r = False if find_counter(g, p) else r
        if r is False:
            return False
        if r is None:
            res = None
    return res

def rel_lits(g, p):
    at = {x for x in subterms(p) if x.op in ('sym', 'fld', 'vget', 'app', 'iv')} - {ROWS, COLS}
    out = [l for l in g if any(x in at for x in subterms(l))]
    return tuple(out) or tuple(g)

def pairing(I, e, ts):
    """distance-map pairing (C11): a cell whose distance is below that of an actual pair of cells has a nearest cell"""
    out = []
    for t in ts:
        if t.op not in ('pos', 'nneg'):
            continue
        p = pdict(t.a[0])
        for m, c in p.items():
            if len(m) == 1 and c < 0 and m[0][1] == 1 and m[0][0].op == 'vget' and ty(m[0][0]) == 'i':
                d = m[0][0]
                i = d.a[1]
                for u in ts:
                    for x in subterms(u):
                        if x.op == 'vget' and x.a[1] is i and x is not d and is_cells(x.a[0]):
                            out += [le(ZERO, fld(x, 'row', 'i')), le(ZERO, fld(x, 'col', 'i'))]
                gpos = d.a[0]
                # the nearest-cell grid itself at that index, however it is reached
                for u in ts:
                    for x in subterms(u):
                        if x.op == 'vget' and is_cells(x.a[0]) and canon(x.a[1]) is canon(i):
                            out += [le(ZERO, fld(x, 'row', 'i')), le(ZERO, fld(x, 'col', 'i'))]
    return out

def split(idx):
    """index = col + row * columns"""
    if idx.op == 'ite':
        return None, None
    p = pdict(idx)
    if p is None:
        return None, None
    row, col = {}, {}
    for m, c in p.items():
        ats = dict(m)
        if ats.get(COLS) == 1:
            row[tuple((a, e) for a, e in m if a is not COLS)] = c
        else:
            col[m] = c
    # -1 + columns - iv: the last column counted down belongs to the column part
    if set(row) == {()} and any(c < 0 for m, c in col.items() if m != ()) :
        pass
    r, k = fromdict(row), fromdict(col)
    return r, k

def parts_of(idx, col, colterm, guard):
    if col is None:
        return None, None
    rest = sub(idx, col)
    if rest is ZERO:
        return None, None
    rest = simp_under(rest, guard)
    row = {}
    p = pdict(rest)
    if p is None:
        return None, None
    for m, c in p.items():
        ats = dict(m)
        if ats.get(colterm) != 1:
            return None, None
        row[tuple((a, e) for a, e in m if a is not colterm)] = c
    return canon(fromdict(row)), canon(simp_under(col, guard))

def gname(grid):
    return grid.a[1] if grid.op == 'fld' else clip(grid, 60)

def table(C):
    cls = 'Planner::NonHolonomicHeuristic'
    k = C.func(cls + '::GetHeuristicValue', 1)
    this = sym('this', 'p')
    # extents as the constructor leaves them
    I = C.run(k, opaque=('operator-',))
    o = I.read(I.S, I.deref(this, cls))
    res = fld(o, 'angularResolution', 'r')
    names = ['numSpatialX', 'numSpatialY', 'numAngular']
    ct = [c for c, f in C.P.F.items() if f.get('kind') == 'ctor' and f.get('cls') == cls and f.get('body') and len(f['ps']) >= 5]
    C.need(ct, cls + ' constructor')
    J = C.run(ct[0])
    oc = J.read(J.S, J.deref(this, cls))
    na = fld(oc, 'numAngular', 'i')
    ra = fld(oc, 'angularResolution', 'r')
    w = C.where(k)
    n = 0
    for e in I.events:
        if e.kind != 'index' or e.recvlv is None or e.recvlv.root[0] != 'O':
            continue
        p = e.recvlv.root[1]
        lvl = 0
        q = p
        while q.op == 'vget':
            q = q.a[0]
            if q.op == 'obj':
                q = q.a[0]
            lvl += 1
        if not (q.op == 'fld' and q.a[1] == 'm_values') or lvl > 2:
            continue
        n += 1
        i = [x for x in e.recvlv.path if x[0] == 'i'][0][1]
        g = tuple(e.guard)
        i = simp_under(i, g)
        if lvl < 2:
            C.implied('table', 'the heuristic table is indexed inside dimension %d' % lvl, w, g, and_(le(ZERO, i), lt(i, fld(o, names[lvl], 'i'))))
        else:
            # the heading index: relate the number of headings to the resolution as the constructor does
            wrapped = heading_cases(C, i, o, na, ra, res, w, g)
    C.need(n >= 3, 'heuristic table lookup')
    # filling
    b = C.func(cls + '::Build', many=True)[0]
    I = C.run(b, opaque=('GetOptimalPath', 'ComputeCost'))
    for e in I.events:
        if e.kind == 'index' and e.recvlv is not None and e.recvlv.root[0] == 'O' and e.loops:
            i = [x for x in e.recvlv.path if x[0] == 'i']
            if i and i[0][1].op == 'iv':
                pass
    C.count('table lookups', n)

def heading_cases(C, i, o, na, ra, res, w, g):
    """0 <= heading index < number of headings for every wrapped heading"""
    N = fld(o, 'numAngular', 'i')
    nume = subst(na, {ra: res}) if ra is not res else na
    # the heading difference: the argument of the outermost rounding, divided by the resolution
    from math import pi
    r = [x for x in subterms(i) if x.op in ('round',)]
    if not r:
        C.ob('table', 'heading index of the heuristic table', w, None, clip(i))
        return
    th = [x for x in subterms(i) if x.op == 'fld' and x.a[1] == 'theta' and x.a[0].op == 'app']
    if len(th) != 1 or any(x.op == 'iv' for x in subterms(i)):
        C.ob('table', 'heading index of the heuristic table', w, None, clip(i))
        return
    # the heading of a pose difference is wrapped into [-pi, pi] (C15)
    sy = sym('heading', 'r')
    i2 = subst(i, {th[0]: sy})
    bad = None
    ok = 0
    for s in range(0, 600):
        rr = RI(2 * s, boxes={sy: (-pi, pi), res: (0.01, 2.0)})
        try:
            v, n = rr.ev(i2), rr.ev(subst(nume, {}))
        except (TypeError, ValueError, OverflowError):
            continue
        n2 = n
        # evaluate the index with the constructor's number of headings
        v = rr.ev(subst(i2, {N: nume}))
        ok += 1
        if not (0 <= v < n2):
            bad = (v, n2)
            break
    vague = any(x in ops_of(i2) | ops_of(nume) for x in VAGUE)
    C.ob('table', 'the heuristic table is indexed inside its heading dimension', w, None if (bad and vague) or (not bad and ok < 50) else not bad, '' if not bad else 'index %s of %s headings: %s' % (bad[0], bad[1], clip(i2)))
