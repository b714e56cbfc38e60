"""Value-number analysis of the kinematic model: the pose terms of one and of two chained constant-steer motions are compared
as motion-group identities (sum, zero, reverse, straight, turn direction, turning radius)."""
from lib import *
import math

def pose(p):
    return fld(fld(p, 'position'), '0', 'r'), fld(fld(p, 'position'), '1', 'r'), fld(p, 'theta', 'r')

def same_pose(C, rule, what, w, got, want, boxes):
    g, h = pose(got), pose(want)
    for nm, a, b in zip(('x', 'y'), g, h):
        C.ob(rule, what + ': ' + nm, w, num_same([(a, b)], boxes), 'found %s; required %s' % (clip(a, 200), clip(b, 120)))
    C.ob(rule, what + ': heading', w, num_same([(fn1('cos', g[2]), fn1('cos', h[2])), (fn1('sin', g[2]), fn1('sin', h[2]))], boxes), clip(g[2], 200))

def run(C):
    k = C.func(r'Planner::KinematicBicycleModel::ConstantSteer')
    f = C.P.F[k]
    w = C.where(k)
    C.need(len(f['ps']) == 4, 'ConstantSteer(from, steering, dist, direction)')
    en = enum(C, 'Direction')
    FW, BW = en['Forward'], en['Backward']
    C.assume.append('real arithmetic; wheelbase > 0, |steering| < pi/2')
    frm = sym('from0', 'o')
    this = sym('this', 'p')
    delta, d1, d2 = sym('delta', 'r'), sym('d1', 'r'), sym('d2', 'r')
    def drive(p, st_, d, di):
        I = C.run(k, args={0: p if isinstance(p, LV) else p, 1: st_, 2: d, 3: const(di)})
        return I.ret, I
    p0 = frm
    r, I = drive(p0, delta, d1, FW)
    o = I.read(I.S, I.deref(this, f['cls']))
    flds = [x for x in subterms(fld(r, 'theta', 'r')) if x.op == 'fld' and ty(x) == 'r' and any(y is this for y in subterms(x))] + \
           [x for x in subterms(fld(fld(r, 'position'), '0', 'r')) if x.op == 'fld' and ty(x) == 'r' and any(y is this for y in subterms(x))]
    box = {x: (1.5, 3.5) for x in flds}
    for x in flds:
        if 'rear' in x.a[1].lower():
            box[x] = (0.0, 1.2)
    box[delta] = (-1.2, 1.2)
    box[d1], box[d2] = (0.1, 6.0), (0.1, 6.0)
    for sd, nm, b2 in ((delta, 'curved', box), (ZERO, 'straight', box)):
        for di, dn in ((FW, 'forward'), (BW, 'backward')):
            a, _ = drive(p0, sd, d1, di)
            ab, _ = drive(a, sd, d2, di)
            s, _ = drive(p0, sd, add(d1, d2), di)
            same_pose(C, 'sum', '%s %s: d1 then d2 ends where d1+d2 ends' % (nm, dn), w, ab, s, b2)
            z, _ = drive(p0, sd, ZERO, di)
            same_pose(C, 'zero', '%s %s: zero distance changes nothing' % (nm, dn), w, z, frm, b2)
            back, _ = drive(a, sd, d1, BW if di == FW else FW)
            same_pose(C, 'reverse', '%s %s and back returns to the start' % (nm, dn), w, back, frm, b2)
    # straight motion follows the heading
    for di, sg, dn in ((FW, 1, 'forward'), (BW, -1, 'backward')):
        a, _ = drive(p0, ZERO, d1, di)
        x, y, th = pose(frm)
        gx, gy, gt = pose(a)
        C.ob('straight', 'zero steering %s moves along the heading' % dn, w,
             num_same([(gx, add(x, mul(const(sg), d1, fn1('cos', th)))), (gy, add(y, mul(const(sg), d1, fn1('sin', th)))), (fn1('cos', gt), fn1('cos', th)), (fn1('sin', gt), fn1('sin', th))], box), clip(gx, 160))
    # positive steering turns left when driving forward: sign of the (small) heading change
    b3 = dict(box)
    b3[delta] = (0.02, 1.2); b3[d1] = (0.01, 0.3)
    a, _ = drive(p0, delta, d1, FW)
    dth = sub(fld(a, 'theta', 'r'), fld(frm, 'theta', 'r'))
    ok = True
    n = 0
    for s in range(0, 120, 2):
        rr = RI(s, boxes=b3)
        try:
            v = math.sin(rr.ev(dth))
        except Exception:
            continue
        n += 1
        if v <= 0:
            ok = False
    if n == 0 or (not ok and any(o in VAGUE + LOOPY for o in ops_of(dth))):
        ok = None
    C.ob('left', 'positive steering turns left when driving forward', w, ok, clip(dth, 200))
    # heading change per rear-wheel distance: tan(steering) / wheelbase (the constructor's first parameter)
    kc = [x for x, g in C.P.F.items() if g.get('kind') == 'ctor' and g.get('cls') == f['cls'] and len(g['ps']) == 2]
    if kc:
        J = C.run(kc[0])
        oo = J.read(J.S, J.deref(this, f['cls']))
        pw = sym(C.P.F[kc[0]]['ps'][0]['n'], 'r')
        wb = [fl['n'] for fl in C.P.fields(f['cls']) if fld(oo, fl['n'], 'r') is pw]
        if len(wb) == 1:
            W = fld(o, wb[0], 'r')
            for di, sg, dn in ((FW, 1, 'forward'), (BW, -1, 'backward')):
                a, _ = drive(p0, delta, d1, di)
                C.ob('yaw', 'driving %s turns by distance times tan(steering)/wheelbase' % dn, w,
                     num_same([(fn1(fnn, sub(fld(a, 'theta', 'r'), fld(frm, 'theta', 'r'))), fn1(fnn, mul(const(sg), d1, app('tan', delta), inv(W)))) for fnn in ('cos', 'sin')], box), '')
    # the steering angle computed for a radius drives a circle of that radius
    k2 = C.func(r'Planner::KinematicBicycleModel::GetSteeringAngleFromTurningRadius')
    R = sym('radius0', 'r')
    J = C.run(k2, args={0: R})
    ang = J.ret
    b4 = dict(box)
    b4[R] = (4.0, 15.0)
    a, _ = drive(p0, ang, d1, FW)
    x, y, th = pose(frm)
    gx, gy, gt = pose(a)
    dt = sub(gt, th)
    # chord length of an arc of angle dt on a circle of radius R: 2 R |sin(dt/2)|
    chord2 = add(mul(sub(gx, x), sub(gx, x)), mul(sub(gy, y), sub(gy, y)))
    half = fn1('sin', mul(const(Fraction(1, 2)), dt))
    C.ob('radius', 'the steering angle for a turning radius drives a circle of that radius', C.where(k2),
         num_same([(chord2, mul(const(4), R, R, half, half))], b4), clip(ang, 200))

