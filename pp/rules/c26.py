"""Value-number analysis of the Hybrid A* grid: the bin of a pose is computed symbolically and its width and independence per
component are decided by random interpretation (constant propagation where the heading is folded by a loop); equality, hashing, the goal
test and the states built from poses and paths are compared with the bin and the pose they must stand for."""
from lib import *
from interp import State
from fractions import Fraction as Fr
import math, random

this = sym('this', 'p')
H = 'Planner::HybridAStar'
SP = H + '::StatePropagator'
TECHNIQUE = 'static analysis: value numbering of bins, equality, hash and goal test; random interpretation of bin widths'

def mkpose(x, y, th):
    return st('Planner::Pose2<double>', None, {'position': st('V2', None, {'0': x, '1': y}), 'theta': th})

def comps(p, t='r'):
    return fld(fld(p, 'position'), '0', t), fld(fld(p, 'position'), '1', t), fld(p, 'theta', t)

def bins(C):
    k = C.func(SP + '::DiscretizePose', 1)
    w = C.where(k)
    x, y, th = sym('x', 'r'), sym('y', 'r'), sym('th', 'r')
    I = C.run(k, args={0: mkpose(x, y, th)})
    res = {}
    o = fld(raw('obj', this), 'm_param')
    rs, ra = fld(o, 'spatialResolution', 'r'), fld(o, 'angularResolution', 'r')
    for nm, t, var, r, lim in (('x', comps(I.ret)[0], x, rs, 60.0), ('y', comps(I.ret)[1], y, rs, 60.0), ('heading', comps(I.ret)[2], th, ra, 3.1)):
        fixed0 = {s: 0 for s in subterms(t) if s.op == 'iv'}         # an angle already in range is not folded
        if nm != 'heading' and fixed0 or contains_op(t, ('phi', 'unk', 'uninit')):
            ok, why = consts(C, k, nm) if nm == 'heading' else (None, clip(t))
        else:
            ok, why = width(t, var, r, lim, fixed0, (x, y, th))
        C.ob('bin', 'poses in one bin are less than one resolution apart in %s and bins are no narrower' % nm, w, ok, why)

def width(t, var, r, lim, fixed0, allv):
    rnd = random.Random(7)
    n = 0
    for s in range(60):
        res = rnd.uniform(0.03, 2.0) if lim > 10 else rnd.uniform(0.03, 0.5)
        def b(v, others=0.3):
            f = dict(fixed0)
            for q in allv:
                f[q] = others
            f[var], f[r] = v, res
            return RI(s, fixed=f).ev(t)
        try:
            for _ in range(12):
                v = rnd.uniform(-lim, lim) if rnd.random() < .6 else rnd.uniform(-1.9, 1.9) * res
                d = rnd.uniform(1.001, 1.95) * res
                if abs(v + d) > lim or abs(v) > lim:
                    continue
                if b(v) == b(v + d):
                    return False, 'with resolution %.4g the values %.6g and %.6g share bin %s: %s' % (res, v, v + d, b(v), clip(t))
                if b(v) != b(v, 0.9):
                    return False, 'the bin changes with another component: %s' % clip(t)
                lo, hi = max(-lim, v), min(lim, v + 10 * res)
                m = len({b(lo + (hi - lo) * i / 200.0) for i in range(201)})
                if m > math.ceil((hi - lo) / res) + 1:
                    return False, 'with resolution %.4g the interval of length %.4g is split in %d bins: %s' % (res, hi - lo, m, clip(t))
                n += 1
        except (ArithmeticError, ValueError, TypeError, KeyError) as e:
            return None, 'not evaluated: %s' % e
    return (True if n > 50 else None), clip(t)

def consts(C, k, nm):
    """the heading is folded by loops: propagate constants through them"""
    res = Fr(872, 10000)
    seen = {}
    for i in range(-34, 35):
        v = res * i + Fr(1, 100)
        J = C.interp()
        S = State()
        J.write(S, J.deref(this, SP).f('m_param', 'o', None).f('angularResolution', 'r', None), const(res))
        I = C.run(k, args={0: mkpose(ZERO, ZERO, const(v))}, unroll=40, S=S)
        t = comps(I.ret)[2]
        if not isconst(t):
            return None, 'bin of heading %s is %s' % (v, clip(t))
        if t in seen:
            return False, 'with resolution %s the headings %s and %s share bin %s' % (float(res), float(seen[t]), float(v), clip(t))
        seen[t] = v
    return True, ''

def dpose(C):
    fe = C.func(H + '::State::Equal::operator\\(\\)', 2)
    I = C.run(fe)
    l, r = [sym(p['n'], 'o') for p in C.P.F[fe]['ps']]
    a, b = comps(fld(l, 'discretePose'), 'i'), comps(fld(r, 'discretePose'), 'i')
    C.same('equal', 'two states are duplicates exactly when all three bin indices agree', C.where(fe), I.ret, and_(*[eq(p, q) for p, q in zip(a, b)]))
    fh = C.func(H + '::State::Hash::operator\\(\\)', 1)
    I = C.run(fh)
    s = sym(C.P.F[fh]['ps'][0]['n'], 'o')
    other = [t for t in subterms(I.ret) if t.op == 'fld' and t.a[0] is s and t.a[1] != 'discretePose']
    mine = [t for t in subterms(I.ret) if t.op == 'fld' and t.a[0] is s and t.a[1] == 'discretePose']
    C.ob('hash', 'duplicates hash equally: the hash reads nothing but the bin', C.where(fh), False if other else True if mine or not contains_op(I.ret, ('unk', 'uninit')) else None,
         'hash reads %s' % ', '.join(clip(t) for t in other) if other else '')

def identical(C):
    k = C.func(H + '::GraphSearch::IdenticalPoses', 3)
    w = C.where(k)
    e = const(Fr(1, 10**7))
    tol = const(Fr(1, 1000))
    p0 = (const(3), const(-4))
    half = mul(const(Fr(1, 2)), PI)
    cases = [('equal poses', p0, const(1), p0, const(1), TRUE),
             ('headings half a turn on either side of the seam', p0, sub(PI, e), p0, add(neg(PI), e), TRUE),
             ('headings half a turn on either side of the seam, swapped', p0, add(neg(PI), e), p0, sub(PI, e), TRUE),
             ('exactly opposite ends of the range', p0, PI, p0, neg(PI), TRUE),
             ('headings a tenth apart', p0, const(Fr(1, 10)), p0, ZERO, FALSE),
             ('headings a tenth apart, swapped', p0, ZERO, p0, const(Fr(1, 10)), FALSE),
             ('headings a tenth apart across the seam', p0, sub(PI, const(Fr(1, 20))), p0, add(neg(PI), const(Fr(1, 20))), FALSE),
             ('opposite headings', p0, half, p0, neg(half), FALSE),
             ('x apart', p0, ZERO, (const(4), const(-4)), ZERO, FALSE),
             ('x apart, swapped', (const(4), const(-4)), ZERO, p0, ZERO, FALSE),
             ('y apart', p0, ZERO, (const(3), const(-5)), ZERO, FALSE),
             ('y apart, swapped', (const(3), const(-5)), ZERO, p0, ZERO, FALSE)]
    for nm, p, a, q, b, want in cases:
        I = C.run(k, args={0: mkpose(p[0], p[1], a), 1: mkpose(q[0], q[1], b), 2: tol}, unroll=4)
        r = I.ret
        C.ob('identical', 'poses compared as identical: ' + nm, w, True if r is want else False if r in (TRUE, FALSE) else None, 'answers %s, required %s' % (clip(r), clip(want)))
    k = C.func(H + '::GraphSearch::IsSolution', 1)
    I = C.run(k, opaque=('IdenticalPoses',), nomut=('IdenticalPoses',))
    r = I.ret
    cs = [t for t in subterms(r) if t.op == 'app' and t.a[0] == 'call:IdenticalPoses']
    C.need(cs and r is cs[0], 'the goal test is not the identity of poses')
    goal = fld(fld(raw('obj', this), 'm_goal'), 'continuousPose')
    args = list(cs[0].a[3:5])
    ok = goal in args
    oth = [a for a in args if a is not goal]
    isnode = len(oth) == 1 and oth[0].op == 'fld' and oth[0].a[1] == 'continuousPose' and any(t.op == 'obj' for t in subterms(oth[0]))
    C.ob('goal', 'the goal test compares the pose of the node with the pose of the goal', C.where(k), True if ok and isnode else False if all(a.op == 'fld' for a in args) else None, clip(r))

def states(C):
    k = C.func(SP + '::CreateStateFromPose', 1)
    p = mkpose(sym('x', 'r'), sym('y', 'r'), sym('th', 'r'))
    I = C.run(k, args={0: p}, opaque=('DiscretizePose',), nomut=('DiscretizePose',))
    one(C, k, I, p, 'a state made for a pose')
    k = C.func(SP + '::CreateStateFromPath', 1)
    I = C.run(k, opaque=('DiscretizePose', 'GetFinalState', 'GetDirection', 'Interpolate', 'GetInitialState'), nomut=('DiscretizePose', 'GetFinalState', 'GetDirection', 'Interpolate', 'GetInitialState'))
    path = raw('obj', sym(C.P.F[k]['ps'][0]['n'], 'p'))
    fin = app('call:GetFinalState', path, ty='o')
    r = one(C, k, I, fin, 'a state made for a path')
    d = fld(r, 'direction', 'i')
    okd = d.op == 'app' and d.a[0] == 'call:GetDirection'
    C.ob('state', 'a state made for a path has the direction the path ends in', C.where(k), None if not okd else True if d.a[-1] is ONE else False if isconst(d.a[-1]) else None, clip(d))
    k = C.func(SP + '::SetGoalState', 1)
    I = C.run(k, opaque=('CreateStateFromPose',), nomut=('CreateStateFromPose',))
    o = I.read(I.S, I.deref(this, SP))
    g = fld(o, 'm_goalState')
    cs = [t for t in subterms(g) if t.op == 'app' and t.a[0] == 'call:CreateStateFromPose']
    C.ob('state', 'the goal state is that of the goal pose', C.where(k), True if cs and all(t.a[-1].op == 'sym' for t in cs) else False if g is fld(raw('obj', this), 'm_goalState') else None, clip(g))

def one(C, k, I, p, what):
    w = C.where(k)
    r = I.ret
    got, want = comps(fld(r, 'continuousPose')), comps(p)
    if any(t.op == 'app' and t.a[0] in ('call:Interpolate', 'call:GetInitialState') for c in got for t in subterms(c)):
        c = [t for c in got for t in subterms(c) if t.op == 'app' and t.a[0] in ('call:Interpolate', 'call:GetInitialState')][0]
        C.ob('state', what + ' holds the final pose', w, False if c.a[0] == 'call:GetInitialState' else True if c.a[-1] is ONE else False if isconst(c.a[-1]) else None, clip(c))
    else:
        for nm, a, b in zip(('x', 'y', 'heading'), got, want):
            C.same('state', what + ' holds its ' + nm, w, a, b)
    d = fld(r, 'discretePose')
    cs = [t for t in subterms(d) if t.op == 'app' and t.a[0] == 'call:DiscretizePose']
    if not cs:
        return r
    for t in set(cs):
        arg = comps(t.a[-1])
        for nm, a, b in zip(('x', 'y', 'heading'), arg, got):
            C.same('state', what + ' is filed in the bin of its own ' + nm, w, a, b)
    for i, (nm, a) in enumerate(zip(('x', 'y', 'heading'), comps(d, 'i'))):
        b = comps(cs[0], 'i')[i]
        C.same('state', what + ' keeps the %s index of its bin' % nm, w, a, b)
    return r

def run(C):
    C.each(bins, dpose, identical, states)
