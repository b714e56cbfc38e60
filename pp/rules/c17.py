"""Cost and role analysis: the cost terms of the Reeds-Shepp path, of both Hybrid A* successors and of the heuristics are computed
symbolically and compared with forward/reverse/switching charges per direction pattern; every call that hands a cost or resolution
parameter on is checked to pass the value of the same role."""
from lib import *
import itertools

this = sym('this', 'p')
SEG = 'Planner::ReedsShepp::PathSegment'
ROLES = ('minTurningRadius', 'reverseCostMultiplier', 'forwardCostMultiplier', 'directionSwitchingCost', 'spatialResolution',
         'angularResolution', 'voronoiCostMultiplier', 'numGeneratedMotion', 'wheelbase')

def role(name):
    n = name[2:] if name.startswith('m_') else name
    n = n.split(':')[-1]
    return n if n in ROLES else None

def leafrole(t):
    """the role of a value: a parameter or a field that carries a role name"""
    if t.op == 'sym':
        return role(t.a[0])
    if t.op == 'fld':
        return role(t.a[1])
    if t.op == 'app' and t.a[0] in ('f32', 'cast'):
        return leafrole(t.a[-1])
    return None

def ctor(C, cls, n):
    for k, f in sorted(C.P.F.items()):
        if f.get('cls') == cls and f['n'] == cls.split('::')[-1] and len(f['ps']) == n:
            return k
    C.need(False, 'no constructor %s/%d' % (cls, n))

def segment(C, dirs, ls):
    se, de = enum(C, 'Steer'), enum(C, 'Direction')
    ks, am = ctor(C, SEG, 0), C.func(SEG + '::AddMotion', 3)
    sp = raw('alloc', 'seg', (), SEG)
    S = C.run(ks, this=sp, thiscls=SEG).S
    st_ = ['Left', 'Straight', 'Right', 'Left', 'Right']
    for i, (d, l) in enumerate(zip(dirs, ls)):
        S = C.run(am, this=sp, thiscls=SEG, args={0: const(se[st_[i]]), 1: const(de[d]), 2: l}, S=S).S
    return sp, S

def rscost(C):
    k = C.func(SEG + '::ComputeCost', 4)
    f = C.P.F[k]
    ix = {role(p['n']): i for i, p in enumerate(f['ps'])}
    names = ROLES[:4]
    C.need(all(n in ix for n in names), 'ComputeCost(radius, reverse, forward, switching)')
    w = C.where(k)
    dflt = {'reverseCostMultiplier': ONE, 'forwardCostMultiplier': ONE, 'directionSwitchingCost': ZERO}
    top = 5 if C.tier == 'thorough' else 4
    for n in range(1, top + 1):
        for dirs in itertools.product(('Forward', 'Backward'), repeat=n):
            ls = [sym('pos:l%d' % i, 'r') for i in range(n)]
            sp, S0 = segment(C, dirs, ls)
            for m in range(8):
                v = {'minTurningRadius': sym('pos:radius', 'r')}
                for b, nm in enumerate(names[1:]):
                    v[nm] = dflt[nm] if m >> b & 1 else sym('pos:' + nm, 'r')
                I = C.run(k, this=sp, thiscls=SEG, args={ix[nm]: v[nm] for nm in names}, S=S0.fork())
                want, prev = ZERO, None
                for d, l in zip(dirs, ls):
                    mult = v['forwardCostMultiplier'] if d == 'Forward' else v['reverseCostMultiplier']
                    want = add(want, mul(l, v['minTurningRadius'], mult), v['directionSwitchingCost'] if prev not in (None, d) else ZERO)
                    prev = d
                tag = ''.join(d[0] for d in dirs) + ' with ' + (', '.join(nm + ' at its default' for b, nm in enumerate(names[1:]) if m >> b & 1) or 'arbitrary parameters')
                C.ob('path-cost', 'Reeds-Shepp cost of a %s path, %s' % (tuple(tag.split(' ', 1))), w, num_same([(I.ret, want)], {}), clip(I.ret))
    sp, S0 = segment(C, (), ())
    I = C.run(k, this=sp, thiscls=SEG, S=S0)
    C.ob('path-cost', 'a path without motions costs infinitely much', w, (True if isinf(I.ret) else None if ops_of(I.ret) & set(VAGUE) else False), clip(I.ret))

def roles(C):
    byname = {}
    for k, f in C.P.F.items():
        if any(role(p['n']) for p in f['ps']):
            byname.setdefault((f['n'], len(f['ps'])), []).append(f)
    C.count('functions with role parameters', sum(len(v) for v in byname.values()))
    H = 'Planner::HybridAStar'
    sites = ((H + '::Initialize', 1, ('Build',)),
             ('Planner::NonHolonomicHeuristic::Build', 7, ('GetOptimalPath', 'ComputeCost')),
             (H + '::StatePropagator::GetReedsSheppChild', None, ('GetOptimalPath', 'ComputeCost', 'GetVoronoiCost', 'IsPathValid')),
             ('Planner::PathConnectionReedsShepp::Connect', 2, ('GetOptimalPath',)),
             ('Planner::PathReedsShepp::ComputeCost', 3, ('ComputeCost',)),
             ('Planner::ReedsShepp::Solver::GetShortestPath', None, ('GetShortestDistance',)),
             ('Planner::ReedsShepp::Solver::GetOptimalPath', 7, ('ComputeCost',)))
    for q, n, op in sites:
        try:
            k = C.func(q, n)
            I = C.run(k, opaque=tuple(o for o in op if True), unroll=6)
        except (AnchorError, Undecided) as e:
            C.ob('roles', '%s: %s' % (q, e), '-', None)
            continue
        seen = 0
        for e in I.events:
            if e.kind not in ('call', 'ctor') or (e.name, len(e.args or ())) not in byname:
                continue
            fs = byname[(e.name, len(e.args))]
            for i, a in enumerate(e.args):
                rs = {role(f['ps'][i]['n']) for f in fs}
                if len(rs) != 1 or None in rs or a is None:
                    continue
                r = rs.pop()
                got = leafrole(a)
                seen += 1
                ok = True if got == r else False if got is not None or isconst(a) else None
                C.ob('roles', '%s passes %s to %s in its own role' % (q.split('::', 1)[1], r, e.name), '%s:%s' % (rel(e.file), e.line), ok, '' if ok else 'argument %d of %s is %s' % (i + 1, e.name, clip(a, 120)))
        C.count('role arguments', seen)

def stored(C):
    for cls, n in (('Planner::HybridAStar::SearchParameters', 8), ('Planner::NonHolonomicHeuristic', 8), ('Planner::PathConnectionReedsShepp', 4), ('Planner::PathReedsShepp', 3), ('Planner::KinematicBicycleModel', 2)):
        try:
            k = ctor(C, cls, n)
            f = C.P.F[k]
            I = C.run(k, thiscls=cls)
        except (AnchorError, Undecided) as e:
            C.ob('stored', '%s: %s' % (cls, e), '-', None)
            continue
        o = I.read(I.S, I.deref(this, cls))
        fields = {}
        for p in f['ps']:
            r = role(p['n'])
            if not r:
                continue
            for nm in (r, 'm_' + r):
                v = fld(o, nm, 'r')
                if v.op == 'fld' and v.a[0].op in ('app', 'obj', 'sym', 'uninit'):
                    continue
                g = leafrole(v)
                ok = True if g == r else False if (g is not None or isconst(v)) else None
                C.ob('stored', '%s keeps %s as given' % (cls.split('::')[-1], r), C.where(k), ok, '' if ok else 'stored %s' % clip(v, 120))
                fields[r] = 1
        C.count('stored parameters', len(fields))

def outp(I, name):
    kk = [k for k in I.S.mem if k[0] == 'P' and k[1] == name]
    return kk

def readp(C, I, f, i):
    """value of by-reference parameter i after the run"""
    nm = f['ps'][i]['n']
    for k, v in I.S.mem.items():
        if k[0] == 'P' and k[1] == nm:
            return v
    return None

def successors(C):
    de = enum(C, 'Direction')
    P = 'Planner::HybridAStar::StatePropagator'
    param = fld(raw('obj', this), 'm_param', 'o')
    pv = {r: fld(param, r, 'r') for r in ROLES}
    k = C.func(P + '::GetConstantSteerChild', 6)
    f = C.P.F[k]
    w = C.where(k)
    opq = ('GetVoronoiCost', 'IsPathValid', 'Truncate', 'GetLength', 'CreateStateFromPath', 'DiscretizePose', 'GetFinalState')
    for dn in ('Forward', 'Backward'):
        for prev in ('NoMotion', 'Forward', 'Backward'):
            stt = st('Planner::HybridAStar::State', sym('state0', 'o'), {'direction': const(de[prev])})
            I = C.run(k, args={0: stt, 2: const(de[dn])}, opaque=opq, nomut=('GetVoronoiCost', 'GetLength', 'IsPathValid'))
            cost = readp(C, I, f, 5)
            C.need(cost is not None, 'no cost written')
            cost = simp_under(cost, [I.ret]) if I.ret is not None else cost
            ln = [t for t in subterms(cost) if t.op == 'app' and t.a[0] == 'call:GetLength']
            vo = [t for t in subterms(cost) if t.op == 'app' and t.a[0] == 'call:GetVoronoiCost']
            C.need(ln, 'cost is not formed from the path length')
            mult = pv['forwardCostMultiplier' if dn == 'Forward' else 'reverseCostMultiplier']
            # every path length and Voronoi cost that occurs is that of the same path, cut or not
            l0, v0 = sym('pos:len', 'r'), sym('pos:voro', 'r')
            c2 = subst(cost, {**{t: l0 for t in ln}, **{t: v0 for t in vo}})
            want = add(mul(mult, l0), v0, ZERO if prev in ('NoMotion', dn) else pv['directionSwitchingCost'])
            C.same('steer-cost', 'Hybrid A* %s successor of a state reached by %s is charged its own direction' % (dn, prev), w, c2, want, guard=(I.ret,))
            for t in ln:
                C.ob('steer-cost', '%s successor: the length charged is that of the path kept' % dn, w, True if t.a[2] is not None else None)
    # the motion explored
    for e in I.events:
        if e.kind in ('call', 'ctor') and e.name == 'PathConstantSteer' and len(e.args) == 5:
            a = e.args[3]
            ok = None if a is None else True if any(leafrole(x) == 'spatialResolution' for x in subterms(a)) and not any(leafrole(x) not in (None, 'spatialResolution') for x in subterms(a)) else False if any(leafrole(x) for x in subterms(a)) else None
            C.ob('steer-length', 'the length of a constant-steer motion comes from the spatial resolution', w, ok, clip(a) if a is not None else '')
    # Reeds-Shepp successor
    k = C.func(P + '::GetReedsSheppChild', 4)
    f = C.P.F[k]
    w = C.where(k)
    for prev in ('NoMotion', 'Forward', 'Backward'):
        stt = st('Planner::HybridAStar::State', sym('state0', 'o'), {'direction': const(de[prev])})
        I = C.run(k, args={0: stt}, opaque=('GetOptimalPath', 'ComputeCost', 'GetVoronoiCost', 'IsPathValid', 'GetDirection', 'CreateStateFromPath', 'Interpolate'), nomut=('GetVoronoiCost', 'ComputeCost', 'GetDirection', 'IsPathValid'))
        cost = readp(C, I, f, 3)
        C.need(cost is not None, 'no cost written')
        cost = simp_under(cost, [I.ret])
        di = [t for t in subterms(cost) if t.op == 'app' and t.a[0] == 'call:GetDirection']
        cc = [t for t in subterms(cost) if t.op == 'app' and t.a[0] == 'call:ComputeCost']
        vo = [t for t in subterms(cost) if t.op == 'app' and t.a[0] == 'call:GetVoronoiCost']
        C.need(cc, 'cost is not formed from the path cost')
        for first in ('NoMotion', 'Forward', 'Backward'):
            c0, v0 = sym('pos:cost', 'r'), sym('pos:voro', 'r')
            c2 = subst(cost, {**{t: const(de[first]) for t in di}, **{t: c0 for t in cc}, **{t: v0 for t in vo}})
            want = add(c0, v0, pv['directionSwitchingCost'] if 'NoMotion' not in (prev, first) and prev != first else ZERO)
            C.same('shot-cost', 'Reeds-Shepp successor starting %s after %s: one switching charge exactly when the direction changes' % (first, prev), w, c2, want, guard=(I.ret,))
        for t in di:
            r = t.a[-1]
            C.ob('shot-cost', 'the direction compared is the one the path starts in', w, True if r is ZERO else False if isconst(r) else None, clip(r))

def voronoi(C):
    P = 'Planner::HybridAStar::StatePropagator'
    k = C.func(P + '::GetVoronoiCost', 1)
    I = C.run(k, opaque=('GetPathCost', 'Interpolate', 'WorldPositionToGridCell', 'IsInsideMap', 'GetLength'))
    t = I.ret
    vm = fld(fld(raw('obj', this), 'm_param', 'o'), 'voronoiCostMultiplier', 'r')
    z = subst(t, {vm: ZERO})
    d2 = subst(t, {vm: const(2)})
    one = subst(t, {vm: ONE})
    r = {leafrole(x) for x in subterms(t)} - {None}
    ok = True if r == {'voronoiCostMultiplier'} and z is ZERO and decide_same(d2, mul(const(2), one))[0] else False if not r or r - {'voronoiCostMultiplier'} else None
    C.ob('voronoi-cost', 'the Voronoi cost of a path is scaled by the Voronoi multiplier', C.where(k), ok, clip(t))

def steering(C):
    P = 'Planner::HybridAStar::StatePropagator'
    k = ctor(C, P, 1)
    f = C.P.F[k]
    for n in (1, 5, 6):
        pr = st('Planner::HybridAStar::SearchParameters', sym('param0', 'o'), {'numGeneratedMotion': const(n)})
        I = C.run(k, args={0: pr}, opaque=('GetSteeringAngleFromTurningRadius',), nomut=('GetSteeringAngleFromTurningRadius',), thiscls=P)
        o = I.read(I.S, I.deref(this, P))
        m = fld(o, 'm_param', 'o')
        if n == 5:
            for r in ROLES:
                if r == 'numGeneratedMotion':
                    continue
                C.same('propagator', 'the state propagator keeps %s' % r, C.where(k), fld(m, r, 'r'), fld(sym('param0', 'o'), r, 'r'))
        ds = fld(o, 'm_deltas', 'o')
        sz = size(ds)
        if not isconst(sz):
            C.ob('steering', 'set of steering angles', C.where(k), None, clip(ds))
            continue
        el = [vget(ds, const(i), 'r') for i in range(int(cval(sz)))]
        mx = [t for e in el for t in subterms(e) if t.op == 'app' and t.a[0] == 'call:GetSteeringAngleFromTurningRadius']
        if n > 1 and mx:
            ok = True if all(leafrole(t.a[-1]) == 'minTurningRadius' for t in mx) else False if all(leafrole(t.a[-1]) or isconst(t.a[-1]) for t in mx) else None
            C.ob('steering', 'the largest steering angle comes from the turning radius', C.where(k), ok, clip(mx[0]))
        for e in el:
            v = subst(e, {t: ONE for t in mx})
            ok = True if isconst(v) and abs(cval(v)) <= 1 else False if isconst(v) else None
            C.ob('steering', '%d motions: no motion steers harder than the turning radius allows' % n, C.where(k), ok, clip(e))
        if n > 1:
            vs = {cval(subst(e, {t: ONE for t in mx})) for e in el if isconst(subst(e, {t: ONE for t in mx}))}
            if len(vs) == len(el):
                C.ob('steering', '%d motions: straight, and both ways at the turning radius' % n, C.where(k), {0, 1, -1} <= vs, str(vs))
        e0 = [e for e in I.events if e.kind == 'ctor' and e.name == 'KinematicBicycleModel' and len(e.args) == 2]
        if n == 5 and e0:
            a = e0[0].args
            C.ob('steering', 'the model of the vehicle has the configured wheelbase and refers to the rear axle', C.where(k), True if leafrole(a[0]) == 'wheelbase' and a[1] is ZERO else False if (leafrole(a[0]) or isconst(a[0])) and (isconst(a[1]) or leafrole(a[1])) else None, clip(a[0]))

def heuristics(C):
    C.need(True, '')
    N = 'Planner::NonHolonomicHeuristic'
    k = C.func(N + '::GetHeuristicValue', 1)
    I = C.run(k)
    o = raw('obj', this)
    t = I.ret
    # outside of the table: the cheaper multiplier times the distance
    from terms import fld as F_
    s0, g = sym(C.P.F[k]['ps'][0]['n'], 'o'), fld(o, 'm_goal', 'o')
    rv, fw = fld(o, 'reverseCostMultiplier', 'r'), fld(o, 'forwardCostMultiplier', 'r')
    nx, ny = fld(o, 'numSpatialX', 'i'), fld(o, 'numSpatialY', 'i')
    out = None
    for a, b in ((const(2), const(3)), (const(3), const(2))):
        for cnt in ('numSpatialX', 'numSpatialY'):
            n0 = [x for x in subterms(t) if x.op == 'fld' and x.a[1] == cnt]
            C.need(n0, 'no table extent ' + cnt)
            u = subst(t, {**{x: ZERO for x in n0}, rv: a, fw: b})
            dx = sub(fld(fld(g, 'position'), '0', 'r'), fld(fld(s0, 'position'), '0', 'r'))
            dy = sub(fld(fld(g, 'position'), '1', 'r'), fld(fld(s0, 'position'), '1', 'r'))
            want = mul(const(2), fn1('sqrt', add(mul(dx, dx), mul(dy, dy))))
            C.ob('far', 'outside of the table (%s) the heuristic is the cheaper multiplier (%s) times the distance' % (cnt, 'reverse' if cval(a) == 2 else 'forward'), C.where(k), num_same([(u, want)], {}), clip(u, 200))
    # the table is filled with the cost of the pose of the goal relative to the state
    kb = C.func(N + '::Build', 7)
    I = C.run(kb, opaque=('GetOptimalPath', 'ComputeCost'), unroll=6)
    ev = [e for e in I.events if e.kind == 'call' and e.name == 'GetOptimalPath' and len(e.args) == 7]
    C.need(ev, 'the table is not filled with Reeds-Shepp costs')
    for e in ev:
        a, b = e.args[0], e.args[1]
        iv = [x for x in subterms(b) if x.op == 'iv']
        px = lambda p, c: fld(fld(p, 'position'), c, 'r') if c != 't' else fld(p, 'theta', 'r')
        zero0 = all(px(a, c) is ZERO for c in '01t')
        rel_ = [x for x in subterms(px(b, '0')) if x.op == 'iv'] != []
        swapped = all(px(b, c) is ZERO for c in '01t') and any(x.op == 'iv' for x in subterms(a))
        C.ob('table', 'the table holds the cost of driving from the state to the goal, not back', C.where(kb), True if zero0 and rel_ else False if swapped else None, '%s -> %s' % (clip(a, 80), clip(b, 80)))
        for nm, c, own in (('x', '0', 'spatialResolution'), ('y', '1', 'spatialResolution'), ('heading', 't', 'angularResolution')):
            r = {leafrole(x) for x in subterms(px(b, c)) if x.op in ('sym', 'fld')} - {None}
            C.ob('table', 'the %s of a table entry is a multiple of the %s' % (nm, own), C.where(kb), True if own in r and r <= {own} else False if r and own not in r else None, clip(px(b, c), 160))
    # obstacle heuristic
    ko = ctor(C, 'Planner::ObstaclesHeuristic', 3)
    f = C.P.F[ko]
    ix = {role(p['n']): i for i, p in enumerate(f['ps'])}
    C.need('reverseCostMultiplier' in ix and 'forwardCostMultiplier' in ix, 'ObstaclesHeuristic(map, reverse, forward)')
    a, b = sym('pos:rv', 'r'), sym('pos:fw', 'r')
    I = C.run(ko, args={ix['reverseCostMultiplier']: a, ix['forwardCostMultiplier']: b}, thiscls='Planner::ObstaclesHeuristic')
    o = I.read(I.S, I.deref(this, 'Planner::ObstaclesHeuristic'))
    v = fld(o, 'costMultiplier', 'r')
    res = [x for x in subterms(v) if x.op == 'fld' and x.a[1] == 'resolution']
    C.need(res, 'costMultiplier does not use the map resolution')
    C.same('obstacles', 'distances of the obstacle heuristic are charged the cheaper multiplier per metre', C.where(ko), v, mul(res[0], minmax('min', a, b)))
    ki = C.func('Planner::HybridAStar::Initialize', 1)
    I = C.run(ki, opaque=('Build',))
    for e in I.events:
        if e.kind in ('ctor', 'call') and e.name == 'ObstaclesHeuristic' and len(e.args) == 3:
            for r, i in ix.items():
                if r:
                    got = leafrole(e.args[i])
                    C.ob('obstacles', 'the obstacle heuristic is given the %s' % r, C.where(ki), True if got == r else False if got or isconst(e.args[i]) else None, clip(e.args[i]))
    # smoother
    for e in I.events:
        if e.kind == 'call' and e.name == 'Initialize' and len(e.args) == 3 and e.args[2] is not None and (leafrole(e.args[2]) or ty(e.args[2]) == 'r'):
            a = e.args[2]
            mr = [x for x in subterms(a) if leafrole(x) == 'minTurningRadius']
            r = {leafrole(x) for x in subterms(a)} - {None}
            ok = True if mr and decide_same(a, inv(mr[0]))[0] else False if (mr and not ops_of(a) & set(VAGUE)) or r - {'minTurningRadius'} else None
            C.ob('smoother', 'the smoother limits curvature to the inverse of the turning radius', C.where(ki), ok, clip(a))

def run(C):
    C.assume.append('real arithmetic; single precision storage of costs is not modelled')
    C.each(rscost, roles, stored, successors, voronoi, steering, heuristics)
