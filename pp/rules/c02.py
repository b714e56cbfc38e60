"""Provenance analysis of the Hybrid A* successors: the path object each successor carries is tracked symbolically from its creation
through validation and truncation, and the object kept, the pose and the bin of the child are compared with the object the validator
judged, per outcome of the validation."""
from lib import *

this = sym('this', 'p')
H = 'Planner::HybridAStar'
SP = H + '::StatePropagator'
TECHNIQUE = 'static analysis: symbolic provenance (what was validated is what is kept) per outcome of the validator'
OPQ = ('GetVoronoiCost', 'IsPathValid', 'Truncate', 'GetLength', 'DiscretizePose', 'GetDirection', 'ConstantSteer', 'GetOptimalPath', 'GetShortestPath', 'ComputeCost')
PURE = tuple(o for o in OPQ if o != 'Truncate')

def comps(p, t='r'):
    return fld(fld(p, 'position'), '0', t), fld(fld(p, 'position'), '1', t), fld(p, 'theta', t)

def param(C, I, k, name):
    for kk in I.S.mem:
        if kk[0] == 'P' and kk[1] == name:
            return I.S.mem[kk]
    return None

def outs(C, k):
    """names of the out parameters by type: child state, action, cost; and of the input state"""
    r = {}
    for p in C.P.F[k]['ps']:
        t = p['t']
        if 'State' in t and 'const' in t:
            r['from'] = p['n']
        elif 'State' in t:
            r['child'] = p['n']
        elif 'Action' in t:
            r['action'] = p['n']
        elif 'double &' in t and 'const' not in t:
            r['cost'] = p['n']
    C.need(len(r) == 4, 'successor function with state in, state, action and cost out')
    return r

def calls(t, name):
    return [x for x in subterms(t) if x.op == 'app' and x.a[0] == 'call:' + name]

def child(C, k, what, cut):
    w = C.where(k)
    o = outs(C, k)
    I = C.run(k, opaque=OPQ, nomut=PURE)
    ret = I.ret
    C.need(ret is not None, 'no result')
    act = param(C, I, k, o['action'])
    C.need(act is not None, 'the action is not written')
    frm = sym(o['from'], 'o')
    ptr = simp_under(fld(act, 'path', 'p'), [ret])
    C.need(ptr.op == 'alloc', 'the path handed on is not one made here (%s)' % clip(ptr))
    obj = I.read(I.S, I.deref(ptr, ptr.a[2]))
    g0 = [ret]
    vs = sorted({v for t in (ret, obj) for v in calls(t, 'IsPathValid')}, key=lambda v: v.id)
    evs = [e for e in I.events if e.kind == 'call' and e.name == 'IsPathValid']
    if not vs:
        lost = contains_op(ret, ('unk', 'uninit')) or contains_op(obj, ('unk', 'uninit')) and False
        C.ob('validated', what + ' is only handed on after validation', w, None if lost else False,
             'success (%s) does not depend on any answer of the validator' % clip(ret))
        return
    C.count('validator answers', len(vs))
    val = fld(raw('obj', this), 'm_validator', 'p')
    for v in vs:
        recv = v.a[2]
        C.ob('validator', what + ': the validator asked is the configured one', w, True if any(x is val for x in subterms(recv)) else None, clip(recv))
    if len(vs) > 1:
        C.ob('validated', what + ': several validations', w, None)
        return
    v = vs[0]
    judged = v.a[3]
    # start
    ini = comps(fld(judged, 'm_init'))
    for nm, a, b in zip(('x', 'y', 'heading'), ini, comps(fld(frm, 'continuousPose'))):
        C.same('start', '%s: the motion judged starts at the %s of the expanded pose' % (what, nm), w, a, b)
    # the object kept
    acc = simp_under(obj, [ret, v])
    if not unsat((ret, v)):
        same = acc is judged or decide_same(acc, judged, guard=(ret, v))[0]
        cutacc = calls_mut(acc, 'Truncate')
        ok = True if same is True else False if cutacc or same is False and not contains_op(acc, ('unk', 'mut', 'uninit')) else None
        C.ob('kept', what + ': an accepted motion is kept as it was judged', w, ok, 'judged %s, kept %s' % (clip(judged, 150), clip(acc, 150)))
        pose(C, what + ' (accepted)', w, param(C, I, k, o['child']), acc, [ret, v])
    nv = not_(v)
    sat = not (simp_under(ret, [nv]) is FALSE or unsat((ret, nv)))
    if not sat:
        C.ob('kept', what + ': a rejected motion is not handed on', w, True)
    else:
        rej = simp_under(obj, [ret, nv])
        cuts = calls_mut(rej, 'Truncate')
        if not cuts:
            same = rej is judged or decide_same(rej, judged, guard=(ret, nv))[0] is True
            C.ob('kept', what + ': a rejected motion is cut before it is handed on', w, False if same else None, 'rejected motion kept as %s' % clip(rej, 200))
        else:
            t = cuts[0]
            args = [x for x in t.a if isinstance(x, T)]
            C.ob('kept', what + ': what is cut is the motion judged', w, True if args[0] is judged else decide_same(args[0], judged)[0], clip(args[0]))
            r = args[1]
            while r.op == 'app' and r.a[0] in ('f32', 'cast', 'f64'):
                r = r.a[-1]
            isout = r.op == 'app' and str(r.a[0]).startswith('out:IsPathValid')
            ok = True if isout else False if not any(x.op == 'app' and str(x.a[0]).startswith('out:IsPathValid') for x in subterms(r)) else None
            if ok is None:
                rr = [x for x in subterms(r) if x.op == 'app' and str(x.a[0]).startswith('out:IsPathValid')][0]
                ok = scaled(r, rr)
            C.ob('kept', what + ': it is cut at the ratio the validator reported', w, ok, 'cut at %s' % clip(r, 200))
            C.ob('kept', what + ': it is cut once and not changed further', w, True if rej is t else None if len(cuts) == 1 else False, clip(rej, 200))
        pose(C, what + ' (rejected, cut)', w, param(C, I, k, o['child']), rej, [ret, nv])

def scaled(r, rr):
    """r a strict over-use of the reported ratio?  cutting shorter than reported is harmless to validity but not 'exactly'"""
    x = sym('pos:ratio', 'r')
    t = subst(r, {rr: x})
    res, _ = decide_same(t, x)
    return res

def calls_mut(t, name):
    return [x for x in subterms(t) if x.op == 'app' and x.a[0] == 'mut:' + name]

def stale(a, obj):
    """a pose read off the motion before it was cut"""
    return bool(calls_mut(obj, 'Truncate')) and not calls_mut(a, 'Truncate') and not contains_op(a, ('unk', 'phi'))

def pose(C, what, w, ch, obj, guard):
    if ch is None:
        C.ob('pose', what + ': the child state is written', w, None)
        return
    got = comps(simp_under(fld(ch, 'continuousPose'), guard))
    want = comps(fld(obj, 'm_final'))
    for nm, a, b in zip(('x', 'y', 'heading'), got, want):
        a, b = simp_under(a, guard), simp_under(b, guard)
        if stale(a, obj):
            C.ob('pose', '%s: the child has the %s the kept motion ends in' % (what, nm), w, False, 'the %s is that of the motion before it was cut: %s' % (nm, clip(a, 150)))
            continue
        C.same('pose', '%s: the child has the %s the kept motion ends in' % (what, nm), w, a, b, guard=tuple(guard))
    d = fld(ch, 'discretePose')
    for i, (nm, a) in enumerate(zip(('x', 'y', 'heading'), comps(d, 'i'))):
        a = simp_under(a, guard)
        cs = calls(a, 'DiscretizePose')
        if not cs:
            C.ob('pose', '%s: the child is filed under the %s of its own pose' % (what, nm), w, None, clip(a))
            continue
        arg = comps(cs[0].a[-1])
        for n2, x, y in zip(('x', 'y', 'heading'), arg, want):
            if stale(simp_under(x, guard), obj):
                C.ob('pose', '%s: the %s index is that of the bin of the pose (%s)' % (what, nm, n2), w, False, 'the bin is that of the motion before it was cut: %s' % clip(x, 150))
                continue
            C.same('pose', '%s: the %s index is that of the bin of the pose (%s)' % (what, nm, n2), w, simp_under(x, guard), simp_under(y, guard), guard=tuple(guard))
        C.same('pose', '%s: the %s index is the bin\'s own' % (what, nm), w, a, comps(cs[0], 'i')[i], guard=tuple(guard))

def steer(C):
    child(C, C.func(SP + '::GetConstantSteerChild', 6), 'constant-steer successor', True)

def shot(C):
    k = C.func(SP + '::GetReedsSheppChild', 4)
    child(C, k, 'Reeds-Shepp successor', False)
    I = C.run(k, opaque=OPQ, nomut=PURE)
    goal = fld(fld(raw('obj', this), 'm_goalState'), 'continuousPose')
    fr = fld(sym(outs(C, k)['from'], 'o'), 'continuousPose')
    for e in I.events:
        if e.kind == 'call' and e.name in ('GetOptimalPath', 'GetShortestPath') and len(e.args) >= 2:
            C.same('start', 'the shot is planned from the expanded pose', C.where(k), e.args[0], fr)
            C.same('goal', 'the shot is planned to the goal pose', C.where(k), e.args[1], goal)

def tuples(C):
    k = C.func(SP + '::GetNeighborStates', 1)
    w = C.where(k)
    names = ('GetConstantSteerChild', 'GetReedsSheppChild')
    I = C.run(k, opaque=names + ('GetHeuristicValue', 'SampleUniform'), nomut=names + ('GetHeuristicValue', 'SampleUniform'))
    st0 = sym(C.P.F[k]['ps'][0]['n'], 'o')
    seen = 0
    for e in I.events:
        if e.kind == 'call' and e.name in names:
            C.same('tuple', '%s is asked for successors of the expanded state' % e.name, w, e.args[0], st0)
        if e.kind != 'call' or e.name not in ('push_back', 'emplace_back'):
            continue
        args = [a for a in e.args if a is not None]
        o = {}
        for a in args:
            for t in topouts(a):
                o.setdefault(t.a[0], set()).add(t)
        if not o:
            continue
        seen += 1
        srcs = {n.split(':')[1] for n in o}
        # the parts come from one successful call
        rets = [t for l in literals(e.guard) for t in subterms(l) if t.op == 'app' and t.a[0] in ['call:' + s for s in srcs]]
        lits = list(literals(e.guard))
        good = [l for l in lits if l.op == 'app' and l.a[0] in ['call:' + s for s in srcs]]
        neg_ = [l for l in lits if l.op == 'not' and l.a[0].op == 'app' and l.a[0].a[0] in ['call:' + s for s in srcs]]
        C.ob('tuple', 'a successor is listed only if it was found', '%s:%s' % (rel(e.file), e.line), True if good else False if neg_ or not rets else None, clip_guard(lits, 200))
        if good:
            tail = good[-1].a[2:]
            bad = [t for ts in o.values() for t in ts if t.a[2:] != tail]
            C.ob('tuple', 'state, action and cost listed are those of the same call', '%s:%s' % (rel(e.file), e.line), True if not bad else None if len(srcs) == 1 and any(contains_op(t, ('unk',)) for t in bad) else False,
                 'mixes %s' % ', '.join(clip(t, 120) for t in bad[:3]))
    C.need(seen, 'no successor is listed')

def topouts(t):
    if t.op == 'app' and str(t.a[0]).startswith('out:Get'):
        return [t]
    return [x for a in kids(t) for x in topouts(a)]

def kids(t):
    for a in t.a:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    yield b
                elif isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, T):
                            yield c

def setup(C):
    k = C.func(SP + '::Initialize', 3)
    I = C.run(k)
    o = I.read(I.S, I.deref(this, SP))
    v = fld(o, 'm_validator', 'p')
    p0 = [p['n'] for p in C.P.F[k]['ps'] if 'StateValidator' in p['t']]
    C.same('validator', 'the propagator validates with the validator it was given', C.where(k), v, sym(p0[0], 'p'))
    for f, t in (('m_heuristic', 'Heuristic'), ('m_gvd', 'GVD')):
        pn = [p['n'] for p in C.P.F[k]['ps'] if t in p['t'].split('<', 1)[-1]]
        if pn:
            C.same('validator', 'the propagator keeps its %s' % f[2:], C.where(k), fld(o, f, 'p'), sym(pn[0], 'p'))

def run(C):
    C.each(steer, shot, tuples, setup)
