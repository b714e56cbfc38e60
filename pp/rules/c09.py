"""Value-number analysis of the occupancy map's frames. The map is sized and moved (in every order) on a symbolic object;
every conversion is then evaluated on the resulting object and its term compared with the frame arithmetic it must denote
(local = world - position, grid origin at -size/2, half-open cells by floor, invalid cell outside)."""
from lib import *

def pt(v):
    return fld(v, '0', 'r'), fld(v, '1', 'r')
def cell(v):
    return fld(v, 'row', 'i'), fld(v, 'col', 'i')

def run(C):
    cls = 'Planner::OccupancyMap'
    C.need(cls in C.P.R, cls)
    ini = C.func(r'Planner::OccupancyMap::InitializeSize', 2)
    sp = C.func(r'Planner::OccupancyMap::SetPosition', 1)
    this = sym('this', 'p')
    W, H = sym('width', 'r'), sym('height', 'r')
    P1, P2 = sym('pos1', 'o'), sym('pos2', 'o')
    C.assume.append('real arithmetic (float/double rounding not modelled); map initialised with a positive size')
    def step(S, what):
        if what == 'init':
            return C.run(ini, args={0: W, 1: H}, S=S).S
        if what == 'init0':
            return C.run(ini, args={0: sym('width0', 'r'), 1: sym('height0', 'r')}, S=S).S
        return C.run(sp, args={0: P1 if what == 'move0' else P2}, S=S).S
    orders = [('init', 'move'), ('move', 'init'), ('init', 'move0', 'move'), ('move0', 'init', 'move'), ('init0', 'move', 'init')]
    n = 0
    convs = {}
    for nm in ('GridCellToLocalPosition', 'GridCellToWorldPosition', 'LocalPositionToGridCell', 'LocalPositionToWorldPosition',
               'WorldPositionToGridCell', 'WorldPositionToLocalPosition', 'IsInsideMap', 'Rows', 'Columns', 'GetPosition'):
        convs[nm] = C.func(r'Planner::OccupancyMap::' + nm, many=True)
    for od in orders:
        S = State()
        for x in od:
            S = step(S, x)
        tag = ' after ' + ','.join(x.rstrip('0') for x in od)
        def run1(k, args):
            return C.run(k, args=args, S=S.fork())
        I0 = C.interp()
        o = I0.read(S, I0.deref(this, cls))
        res = fld(o, 'resolution', 'r')
        px, py = pt(P2)
        rows, cols = fn1('ceil', div(W, res)), fn1('ceil', div(H, res))
        ox, oy = mul(const(Fraction(-1, 2)), W), mul(const(Fraction(-1, 2)), H)
        pos = (le(ONE, rows), le(ONE, cols))
        x, y = sym('x', 'r'), sym('y', 'r')
        p = sym('point', 'o')
        r, c = sym('row', 'i'), sym('col', 'i')
        cl = sym('cell', 'o')
        g = (lt(ZERO, W), lt(ZERO, H), lt(ZERO, res))
        def want_cell(lx, ly, bounded):
            a, b = fn1('floor', div(sub(lx, ox), res)), fn1('floor', div(sub(ly, oy), res))
            if not bounded:
                return a, b
            ins = and_(le(ZERO, a), lt(a, rows), le(ZERO, b), lt(b, cols))
            return ite(ins, a, const(-1)), ite(ins, b, const(-1))
        for nm, ks in convs.items():
            for k in ks:
                f = C.P.F[k]
                w = C.where(k)
                ps = f['ps']
                pt_args = None
                n += 1
                isp = len(ps) >= 1 and ('Matrix' in ps[0]['t'] or 'Point2' in ps[0]['t'])
                if nm in ('Rows', 'Columns'):
                    C.same('size', nm + tag, w, run1(k, {}).ret, rows if nm == 'Rows' else cols, guard=g)
                    continue
                if nm == 'GetPosition':
                    gx, gy = pt(run1(k, {}).ret)
                    C.same('position', nm + ' x' + tag, w, gx, px); C.same('position', nm + ' y' + tag, w, gy, py)
                    continue
                if nm.startswith('GridCell'):
                    if len(ps) == 2:
                        I = run1(k, {0: r, 1: c}); rr, cc = r, c
                    else:
                        I = run1(k, {0: cl}); rr, cc = cell(cl)
                    wx, wy = add(ox, mul(rr, res)), add(oy, mul(cc, res))
                    if 'World' in nm:
                        wx, wy = add(wx, px), add(wy, py)
                    gx, gy = pt(I.ret)
                    C.same('cell-origin', nm + ' x' + tag, w, gx, wx); C.same('cell-origin', nm + ' y' + tag, w, gy, wy)
                    continue
                if nm == 'IsInsideMap' and not isp:
                    a, b = cell(cl)
                    C.same('inside', 'a cell is inside exactly within the extents' + tag, w, run1(k, {0: cl}).ret,
                           and_(le(ZERO, a), lt(a, rows), le(ZERO, b), lt(b, cols)), guard=g, n=60)
                    continue
                args = {0: p} if isp else {0: x, 1: y}
                qx, qy = pt(p) if isp else (x, y)
                if nm == 'LocalPositionToWorldPosition':
                    gx, gy = pt(run1(k, args).ret)
                    C.same('frames', nm + ' x' + tag, w, gx, add(qx, px)); C.same('frames', nm + ' y' + tag, w, gy, add(qy, py))
                elif nm == 'WorldPositionToLocalPosition':
                    gx, gy = pt(run1(k, args).ret)
                    C.same('frames', nm + ' x' + tag, w, gx, sub(qx, px)); C.same('frames', nm + ' y' + tag, w, gy, sub(qy, py))
                elif nm == 'IsInsideMap':
                    a, b = want_cell(sub(qx, px), sub(qy, py), False)
                    C.same('inside', 'a position is inside exactly if its cell is' + tag, w, run1(k, args).ret,
                           and_(le(ZERO, a), lt(a, rows), le(ZERO, b), lt(b, cols)), guard=g, n=60)
                else:
                    lx, ly = (qx, qy) if nm.startswith('Local') else (sub(qx, px), sub(qy, py))
                    for bd in (True, False):
                        I = run1(k, dict(args, **{'bounded': const(bd)}) if any(q['n'] == 'bounded' for q in ps) else dict(args, **{str(len(ps) - 1): const(bd)}) if False else {**args, len(ps) - 1: const(bd)})
                        gr, gc = cell(I.ret)
                        wr, wc = want_cell(lx, ly, bd)
                        C.same('cell', '%s row%s%s' % (nm, '' if bd else ' (unbounded)', tag), w, gr, wr, guard=g, n=60)
                        C.same('cell', '%s col%s%s' % (nm, '' if bd else ' (unbounded)', tag), w, gc, wc, guard=g, n=60)
    C.count('conversions evaluated', n)
