"""Value-number analysis of the validators. IsStateValid: the returned condition must entail the bounds test of the map-relative
pose, the cell range test and the clearance test of the same cell. IsPathValid: the sampling loop is summarised (start, step,
condition under which another round follows, condition under which all rounds passed); the returned condition must entail that
every sample and the final pose were accepted, the step must never exceed the free distance or the minimum step, and every value
stored in *last must be one on acceptance and otherwise zero or the ratio of a sample the validator accepted."""
from lib import *

V = r'Planner::StateValidatorOccupancyMap::'

def atoms(ts, name):
    out = []
    for t in ts:
        for x in subterms(t):
            if x.op == 'app' and x.a[0] == name and x not in out:
                out.append(x)
    return out

def appargs(x):
    return x.a[2:] if len(x.a) > 2 and isinstance(x.a[1], str) else x.a[1:]

def leaves(t, g=()):
    if t.op == 'ite':
        c, a, b = t.a
        return leaves(a, g + (c,)) + leaves(b, g + (not_(c),))
    return [(g, t)]

def sample(f, guard, boxes, n=300):
    """values of f over random interpretations satisfying guard"""
    out = []
    for s in range(n):
        r = RI(s, boxes=boxes)
        try:
            if any(not r.ev(x) for x in guard):
                continue
            v = r.ev(f)
            if isinstance(v, (int, float)) and v == v:
                out.append(float(v))
        except (TypeError, ValueError, OverflowError):
            pass
        if len(out) >= 60:
            break
    return out

def states(C):
    k = C.func(V + 'IsStateValid', 1)
    w = C.where(k)
    st_ = sym('state0', 'o')
    I = C.run(k, opaque=('ValidateBounds', 'GetDistanceToNearestObstacle'), args={0: st_})
    ret = I.ret
    this = sym('this', 'p')
    o = raw('obj', this)
    J = C.interp()
    S = State()
    me = J.read(S, J.deref(this, C.P.F[k]['cls']))
    mapp = fld(me, 'm_map', 'p')
    kl = [x for x in C.func(r'Planner::OccupancyMap::WorldPositionToLocalPosition', many=True) if len(C.P.F[x]['ps']) == 1][0]
    kc = [x for x in C.func(r'Planner::OccupancyMap::WorldPositionToGridCell', many=True) if len(C.P.F[x]['ps']) == 2 and 'Matrix' in C.P.F[x]['ps'][0]['t'] or 'Point2' in C.P.F[x]['ps'][0]['t']][0]
    pos = fld(st_, 'position')
    loc = C.run(kl, this=mapp, args={0: pos}).ret
    cell = C.run(kc, this=mapp, args={0: pos, 1: const(False)}).ret
    vb = atoms([ret], 'call:ValidateBounds')
    C.ob('bounds', 'a state is accepted only after the bounds test', w, bool(vb) if not (ops_of(ret) & set(VAGUE)) or vb else None)
    for x in vb:
        p = x.a[-1]
        q = fld(p, 'position')
        for i in ('0', '1'):
            C.same('bounds', 'the bounds test sees the map-relative position [%s]' % i, w, fld(q, i, 'r'), fld(loc, i, 'r'))
        C.same('bounds', 'the bounds test sees the heading of the state', w, fn1('cos', fld(p, 'theta', 'r')), fn1('cos', fld(st_, 'theta', 'r')))
        C.same('bounds', 'the bounds test sees the heading of the state (sin)', w, fn1('sin', fld(p, 'theta', 'r')), fn1('sin', fld(st_, 'theta', 'r')))
        C.implied('bounds', 'acceptance entails the bounds test', w, (ret,), x)
    m = J.read(S, J.deref(mapp, 'Planner::OccupancyMap'))
    rows, cols = C.run(C.func(r'Planner::OccupancyMap::Rows'), this=mapp).ret, C.run(C.func(r'Planner::OccupancyMap::Columns'), this=mapp).ret
    r, c = fld(cell, 'row', 'i'), fld(cell, 'col', 'i')
    for nm, f in (('first row', le(ZERO, r)), ('last row', lt(r, rows)), ('first column', le(ZERO, c)), ('last column', lt(c, cols))):
        C.implied('in-map', 'acceptance entails that the cell of the state is not beyond the %s' % nm, w, (ret,), f)
    ds = atoms([ret], 'call:GetDistanceToNearestObstacle')
    C.ob('clear', 'acceptance depends on the distance to the nearest obstacle', w, bool(ds) if not (ops_of(ret) & set(VAGUE)) or ds else None)
    safe = fld(me, 'minSafeRadius', 'r')
    for x in ds:
        cl = x.a[-1]
        g = (le(ZERO, r), lt(r, rows), le(ZERO, c), lt(c, cols))
        C.same('clear', 'the distance is looked up at the row of the state', w, fld(cl, 'row', 'i'), r, guard=g)
        C.same('clear', 'the distance is looked up at the column of the state', w, fld(cl, 'col', 'i'), c, guard=g)
        C.implied('clear', 'acceptance entails the safe radius', w, (ret,), le(safe, x))
    # not stricter: a state fulfilling all three is accepted (the validator does not silently refuse)
    return me

def paths(C, me):
    k = C.func(V + 'IsPathValid', 2)
    w = C.where(k)
    path, last = sym('path0', 'o'), sym('last0', 'p')
    this = sym('this', 'p')
    I = C.run(k, opaque=('IsStateValid', 'GetDistanceToNearestObstacle'), args={0: path, 1: last}, S=State(guard=(not_(eq(last, NULL)),)))
    ret = I.ret
    length = fld(path, 'm_length', 'r')
    isv = atoms([ret], 'call:IsStateValid')
    len0 = zero(length)
    def valid(p):
        return app('call:IsStateValid', raw('obj', this), p, ty='b')
    def at(r):
        return app('call:Interpolate', path, r, ty='o')
    def accepted(p):
        """the acceptance atom on pose p as the interpreter writes it"""
        for x in isv + [y for L in I.loops.values() for y in atoms(L.backguard, 'call:IsStateValid')]:
            if x.a[-1] is p:
                return x
        return valid(p)
    fin = [accepted(fld(path, 'm_final'))] + [x for x in isv if x.a[-1].op == 'app' and x.a[-1].a[0] == 'call:Interpolate' and x.a[-1].a[-1] is ONE]
    ini = [accepted(fld(path, 'm_init'))] + [x for x in isv if x.a[-1].op == 'app' and x.a[-1].a[0] == 'call:Interpolate' and x.a[-1].a[-1] is ZERO]
    C.implied('final', 'a path is accepted only if its final state is', w, (ret, lt(ZERO, length)), or_(*fin))
    C.implied('empty', 'a path of length zero is accepted only if its state is', w, (ret, len0), or_(*(fin + ini)))
    loops = [(L, x) for L in I.loops.values() for x in atoms(L.backguard, 'call:IsStateValid')
             if any(y.op == 'app' and y.a[0] == 'call:Interpolate' for y in subterms(x))]
    if not loops:
        any_loop = any(atoms(list(L.next.values()) + list(L.backguard), 'call:Interpolate') for L in I.loops.values())
        C.ob('samples', 'every sampled pose is validated', w, False if any_loop and not any(e.name == 'IsStateValid' and any(y.op == 'app' and y.a[0] == 'call:Interpolate' for a in (e.args or ()) if isinstance(a, T) for y in subterms(a)) for e in I.events if e.kind == 'call') else None)
        return
    L, acc = loops[0]
    ip = [y for y in subterms(acc) if y.op == 'app' and y.a[0] == 'call:Interpolate'][0]
    R = ip.a[-1]
    C.ob('samples', 'the validated sample lies on the path being validated', w, ip.a[2] is path if len(ip.a) > 3 else None, str(ip)[:200])
    C.implied('samples', 'another sample is taken only after this one was accepted', w, tuple(L.backguard), acc)
    C.implied('samples', 'a path is accepted only if every sample passed', w, (ret, lt(ZERO, length)), raw('allpass', L.id))
    C.implied('samples', 'a sample passes only if it is accepted (or lies beyond the end)', w, (L.pass_form, lt(R, ONE), lt(ZERO, length)), acc) if getattr(L, 'pass_form', None) is not None else None
    def at_init(t):
        return subst(t, {L.phi[q]: L.init[q] for q in L.init if q in L.phi and L.init[q] is not None})
    def at_next(t):
        return subst(t, {L.phi[q]: L.next[q] for q in L.next if q in L.phi and L.next[q] is not None})
    C.same('samples', 'the first sample is the start of the path', w, at_init(R), ZERO, guard=(lt(ZERO, length),))
    ds = atoms(list(L.next.values()), 'call:GetDistanceToNearestObstacle')
    step = sub(mul(at_next(R), length), mul(R, length))
    safe, mini = fld(me, 'minSafeRadius', 'r'), fld(me, 'minPathInterpolationDistance', 'r')
    ss = fld(me, 'm_stateSpace', 'p')
    J = C.interp()
    sso = J.read(State(), J.deref(ss, 'Planner::StateSpace<Planner::Pose2<double>, 3, double>'))
    b = fld(sso, 'bounds')
    def bd(i, a):
        return fld(fld(vget(b, const(i)), 'position'), a, 'r')
    pose = fld(ip, 'position')
    kl = [x for x in C.func(r'Planner::OccupancyMap::WorldPositionToLocalPosition', many=True) if len(C.P.F[x]['ps']) == 1][0]
    loc = C.run(kl, this=fld(me, 'm_map', 'p'), args={0: pose}).ret
    border = minmax('min', *([sub(fld(loc, a, 'r'), bd(0, a)) for a in '01'] + [sub(bd(1, a), fld(loc, a, 'r')) for a in '01']))
    kc = [x for x in C.func(r'Planner::OccupancyMap::WorldPositionToGridCell', many=True) if len(C.P.F[x]['ps']) == 2][0]
    if not ds:
        C.ob('step', 'the step depends on the distance to the nearest obstacle', w, None if ops_of(step) & set(VAGUE) else None, str(step)[:200])
    bg = tuple(L.backguard)
    if ops_of(step) & set(VAGUE):
        C.ob('step', 'the step is understood', w, None, clip(step))
    else:
        free = minmax('min', *([sub(x, safe) for x in ds] + [border])) if ds else border
        bound = minmax('max', free, mini)
        box = {length: (0.5, 30.0), mini: (0.05, 0.5), safe: (0.1, 3.0)}
        for q in L.phi.values():
            if ty(q) == 'r':
                box[q] = (0.0, 20.0)
        for x in ds:
            box[x] = (0.0, 40.0)
        for i, ax in ((0, '0'), (0, '1'), (1, '0'), (1, '1')):
            box[bd(i, ax)] = (-100.0, -50.0) if i == 0 else (50.0, 100.0)
        for i in '01':
            box[fld(pose, i, 'r')] = (-45.0, 45.0)
        over = sample(sub(step, bound), bg, box)
        C.ob('step', 'a step is at most the free distance (clearance beyond the safe radius, distance to the border) or the minimum step', w,
             None if not over else not any(v > 1e-6 for v in over), clip(step))
        # the clearance used is that of the sampled pose
        for x in ds:
            cl = x.a[-1]
            want = C.run(kc, this=fld(me, 'm_map', 'p'), args={0: pose, 1: const(True)}).ret
            C.same('step', 'the clearance is looked up at the row of the sample', w, fld(cl, 'row', 'i'), fld(want, 'row', 'i'))
            C.same('step', 'the clearance is looked up at the column of the sample', w, fld(cl, 'col', 'i'), fld(want, 'col', 'i'))
    # reported ratio
    lastv = I.read(I.S, I.deref(last, 'float'))
    base = (not_(eq(last, NULL)), le(ZERO, length))
    for g, v in leaves(lastv):
        gg = base + g
        if entails(gg, eq(last, NULL)) or not feasible(gg):
            continue
        C.count('values of *last')
        if v.op == 'fld' and v.a[0].op == 'obj' and v.a[0].a[0] is last:
            C.ob('ratio', 'the ratio is reported', w, False, 'under %s' % clip_guard(g)); continue
        if feasible(gg + (ret,)):
            C.same('ratio', 'the ratio is one on acceptance', w, v, ONE)
        if feasible(gg + (not_(ret),)):
            if v is ZERO:
                C.ob('ratio', 'the ratio on rejection is zero', w, True); continue
            if ops_of(v) & set(VAGUE):
                C.ob('ratio', 'the ratio on rejection', w, None, clip(v)); continue
            pl = (lt(ZERO, length),)
            C.same('ratio', 'before any sample was accepted the reported ratio is zero', w, at_init(v), ZERO, guard=pl)
            if 'phi' not in ops_of(v):
                continue
            vn = at_next(v)
            ok = decide_same(vn, R, bg + pl)[0]
            if not ok and decide_same(vn, ZERO, pl)[0]:
                ok = True
            C.ob('ratio', 'the reported ratio is that of the sample just accepted', w, ok, 'found %s; required %s' % (clip(vn), clip(R)))

def feasible(g):
    for s in range(120):
        r = RI(s)
        try:
            if all(r.ev(x) for x in g):
                return True
        except (TypeError, ValueError, OverflowError):
            return True
    return False

def overload(C):
    for k in C.func(r'Planner::StateValidator<.*>::IsPathValid', 2, many=True):
        w = C.where(k)
        path, last = sym('path0', 'o'), sym('last0', 'p')
        f = C.P.F[k]
        I = C.run(k, opaque=('IsPathValid',), args={0: path, 1: last}, S=State(guard=(not_(eq(last, NULL)),)))
        calls = [e for e in I.events if e.kind == 'call' and e.name == 'IsPathValid']
        rv = atoms([I.ret], 'call:IsPathValid')
        C.ob('overload', 'the verdict is that of the validator', w, bool(len(rv) == 1 and I.ret is rv[0]) or (None if ops_of(I.ret) & set(VAGUE) else False), clip(I.ret))
        st_ = f['ps'][1]['t']
        v = I.read(I.S, I.deref(last, C.P.pointee(st_)))
        outs = [x for x in subterms(v) if x.op == 'app' and str(x.a[0]).startswith('out:IsPathValid')]
        good = [x for x in subterms(v) if x.op == 'app' and x.a[0] == 'call:Interpolate' and x.a[-1] in outs and path in x.a]
        C.ob('overload', 'the reported state is the state at the reported ratio', w, bool(good) or (None if ops_of(v) & set(VAGUE) - {'uninit'} else False), clip(v))

def ctor(C):
    ks = [k for k, f in C.P.F.items() if f.get('kind') == 'ctor' and f.get('cls') == 'Planner::StateValidatorOccupancyMap' and len(f['ps']) == 2]
    C.need(ks, 'StateValidatorOccupancyMap(stateSpace, map)')
    k = ks[0]
    w = C.where(k)
    I = C.run(k, opaque=('InitializeSize',))
    f = C.P.F[k]
    ss = sym(f['ps'][0]['n'], 'p')
    ev = [e for e in I.events if e.kind == 'call' and e.name == 'InitializeSize']
    C.ob('sized', 'the validator sizes its map', w, True if ev else None)
    J = C.interp()
    for e in ev:
        a = [x for x in e.args if isinstance(x, T)][-2:]
        C.count('map sizing calls')
        for i, (x, ax) in enumerate(zip(a, ('0', '1'))):
            fl = [y for y in subterms(x) if y.op == 'vget' or (y.op == 'fld' and y.a[1] == 'bounds')]
            bs = [y for y in subterms(x) if y.op == 'fld' and y.a[1] == 'bounds']
            if not bs:
                C.ob('sized', 'map size derives from the bounds', w, None, clip(x)); continue
            b = bs[0]
            want = sub(fld(fld(vget(b, ONE), 'position'), ax, 'r'), fld(fld(vget(b, ZERO), 'position'), ax, 'r'))
            C.same('sized', 'the map gets the %s of the state space' % ('width', 'height')[i], w, x, want)

def free(C):
    for k in C.func(r'Planner::StateValidatorFree<.*>::IsPathValid', 2, many=True):
        w = C.where(k)
        last = sym('last0', 'p')
        I = C.run(k, args={1: last}, S=State(guard=(not_(eq(last, NULL)),)))
        v = I.read(I.S, I.deref(last, 'float'))
        if entails((), I.ret):
            C.same('ratio', 'the ratio is one on acceptance (free validator)', w, v, ONE, guard=(not_(eq(last, NULL)),))
    for k in C.func(r'Planner::StateValidatorFree<.*>::IsStateValid', 1, many=True):
        I = C.run(k, opaque=('ValidateBounds',), args={0: sym('state0', 'o')})
        vb = [x for x in atoms([I.ret], 'call:ValidateBounds') if x.a[-1] is sym('state0', 'o')]
        C.ob('bounds', 'the free validator accepts a state only inside the bounds', C.where(k), bool(vb) and decide_implied((I.ret,), vb[0]) or (None if ops_of(I.ret) & set(VAGUE) else False))

def run(C):
    C.assume.append('real arithmetic; positive path length unless zero; IsStateValid and the distance lookup have no side effects')
    from rules import c11
    def both(C):
        paths(C, states(C))
    C.each(both, overload, ctor, free, shared(c11.metric, 'read'))
