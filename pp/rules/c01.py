"""Provenance analysis of the RRT and RRT* tree growth: for every attachment of a node, the stored motion, the chosen parent and the
stored cost are traced back (inductively through the best-parent scan) to one connection that starts at that parent's state, ends in
the new state, was accepted by the validator on the path to the attachment and was not changed after."""
from lib import *

this = sym('this', 'p')
TECHNIQUE = 'static analysis: symbolic provenance of (parent, motion, cost) at every attachment, inductive over the scan loop'
OPQ = ('Extend', 'GetNearestNode', 'GetNearestNodes', 'CreateRootNode', 'Connect', 'Truncate', 'IsPathValid', 'SampleUniform', 'GetLength', 'Clear', 'IsSolution', 'Size', 'GetFinalState')
PURE = tuple(o for o in OPQ if o not in ('Extend', 'CreateRootNode', 'Truncate', 'Clear'))

class Growth:
    def __init__(s, C, cls):
        s.C, s.cls = C, cls
        ks = sorted(k for k, f in C.P.F.items() if f['n'] == 'SearchPath' and f.get('cls', '').startswith(cls + '<') and f.get('body'))
        C.need(ks, 'no %s::SearchPath' % cls)
        s.k = ks[0]
        s.I = C.run(s.k, opaque=OPQ, nomut=PURE)
        s.nm = cls.split('::')[-1]

    def site(s, e):
        return '%s:%s' % (rel(e.file), e.line)

    def run(s):
        C, I = s.C, s.I
        ext = [e for e in I.events if e.kind == 'call' and e.name == 'Extend']
        C.need(ext, s.nm + ' attaches no node')
        for e in ext:
            s.attach(e)
        for e in I.events:
            if e.kind == 'call' and e.name == 'Truncate':
                s.cut(e)

    def stores(s, e, field):
        """values stored in the info of the node an attachment returned"""
        r = []
        for x in s.I.events:
            if x.kind == 'store' and x.seq > e.seq and x.recvlv is not None and x.recvlv.root[0] == 'O' and x.recvlv.root[1] is e.res:
                fs = [p[1] for p in x.recvlv.path if p[0] == 'f']
                if fs and fs[-1] == field:
                    r.append(x)
        return r

    def attach(s, e):
        C = s.C
        w = s.site(e)
        C.need(len(e.args) >= 2, 'Extend(state, parent)')
        X, N = e.args[0], e.args[1]
        ps = s.stores(e, 'path')
        cs = s.stores(e, 'costFromGoal')
        if not ps:
            C.ob('stored', '%s: the motion is stored with the new node' % s.nm, w, False, 'no motion is stored in the node returned by Extend')
            P = None
        else:
            P = ps[-1].args[0]
            C.ob('stored', '%s: the motion is stored with the new node' % s.nm, w, True)
        c = cs[-1].args[0] if cs else None
        if s.nm == 'RRTStar':
            C.ob('stored', '%s: the cost is stored with the new node' % s.nm, w, c is not None, '')
        if N is NULL:
            C.ob('validated', '%s: a node is attached to a parent whose motion to it was validated' % s.nm, w, False, 'attached without a parent (the nearest node is taken at attachment time)')
            return
        if P is not None:
            s.justify(P, N, c, X, e, tuple(literals(e.guard)), w, set())

    def justify(s, P, N, c, X, e, G, w, seen):
        C, I = s.C, s.I
        if len(seen) > 12:
            C.ob('validated', s.nm + ': provenance too deep', w, None)
            return
        if unsat(G):
            return
        if P.op == 'ite':
            for g, arm in ((P.a[0], P.a[1]), (not_(P.a[0]), P.a[2])):
                g2 = G + lits(g)
                s.justify(arm, simp_under(N, g2), None if c is None else simp_under(c, g2), X, e, g2, w, seen)
            return
        if P.op == 'phi':
            lid = P.a[0][0]
            L = I.loops.get(lid)
            if L is None or P in seen:
                C.ob('validated', s.nm + ': motion carried by an unknown loop', w, None)
                return
            byphi = {v: k for k, v in L.phi.items()}
            kp, kn, kc = byphi.get(P), byphi.get(N), byphi.get(c) if c is not None else None
            if kp is None:
                C.ob('validated', s.nm + ': motion carried by an unknown loop', w, None)
                return
            H = tuple(literals(L.headguard)) if L.headguard is not None else ()
            s.justify(L.init[kp], L.init[kn] if kn else N, (L.init[kc] if kc else c) if c is not None else None, X, e, tuple(G) + H, w, seen | {P})
            # one round of the scan
            B = tuple(literals(L.backguard)) if getattr(L, 'backguard', None) is not None else ()
            s.step(L.next[kp], L.next[kn] if kn else N, (L.next[kc] if kc else c) if c is not None else None, P, N, c, X, e, H + B, w, seen | {P})
            return
        if P.op == 'alloc':
            s.base(P, N, c, X, e, G, w)
            return
        C.ob('validated', s.nm + ': the motion stored is not a connection made here', w, None, clip(P, 200))

    def step(s, P2, N2, c2, P, N, c, X, e, G, w, seen):
        C = s.C
        if P2.op == 'ite':
            for g, arm in ((P2.a[0], P2.a[1]), (not_(P2.a[0]), P2.a[2])):
                g2 = lits(g) + G
                s.step(arm, simp_under(N2, g2), None if c2 is None else simp_under(c2, g2), P, N, c, X, e, g2, w, seen)
            return
        if N2.op == 'ite':
            for g, arm in ((N2.a[0], N2.a[1]), (not_(N2.a[0]), N2.a[2])):
                g2 = lits(g) + G
                s.step(P2, arm, None if c2 is None else simp_under(c2, g2), P, N, c, X, e, g2, w, seen)
            return
        if c2 is not None and c2.op == 'ite':
            for g, arm in ((c2.a[0], c2.a[1]), (not_(c2.a[0]), c2.a[2])):
                g2 = lits(g) + G
                s.step(P2, N2, arm, P, N, c, X, e, g2, w, seen)
            return
        if unsat(G):
            return
        if P2 is P:
            C.ob('parent', '%s: a round of the scan that keeps the motion keeps the parent' % s.nm, w, True if N2 is N else False if N.op == 'phi' and N2.op in ('app', 'vget') else None,
                 'motion kept while the parent becomes %s when %s' % (clip(N2, 120), clip_guard(list(G), 200)))
            if c is not None:
                C.ob('cost', '%s: a round of the scan that keeps the motion keeps the cost' % s.nm, w, True if c2 is c else False if c.op == 'phi' and not contains(c2, c) else None,
                     'motion kept while the cost becomes %s' % clip(c2, 120))
            return
        if P2.op == 'alloc':
            s.base(P2, N2, c2, X, e, G, w, P, N, c)
            return
        C.ob('validated', s.nm + ': the motion taken in the scan is not a connection made here', w, None, clip(P2, 200))

    def base(s, P, N, c, X, e, G, w, P0=None, N0=None, c0=None):
        C, I = s.C, s.I
        # the motion as it is when the node is attached: the state at the attachment knows it, or (inside the scan) the last event of its iteration
        O = s.object_of(P, e)
        if O is None:
            C.ob('validated', s.nm + ': motion object', w, None, clip(P))
            return
        for O1, g in arms(O, G):
            if unsat(G + g):
                continue
            s.one(P, O1, N, c, X, e, G + g, w, O)

    def object_of(s, P, e):
        I = s.I
        LV = type(I.deref(this, 'x'))
        def at(S):
            for cls in S.H:
                if 'Path' in cls:
                    try:
                        o = I.read(S, LV(('O', P, cls), ()))
                    except Exception:
                        continue
                    if connects(o) and not o.op in ('obj', 'hphi'):
                        return o
        o = at(e.S)
        if o is None:                # made inside the scan: as it was when the scan was done with it
            for x in I.events:
                if x.kind == 'call' and x.name in ('IsPathValid', 'GetLength', 'GetFinalState', 'Truncate') and x.S is not None and tuple(P.a[1]) == tuple(x.loops):
                    o = at(x.S) or o
        return o

    def one(s, P, O, N, c, X, e, G, w, whole):
        C, I = s.C, s.I
        base, cuts, other = strip(O)
        if base is None or other:
            C.ob('validated', s.nm + ': motion object', w, None, clip(O, 200))
            return
        conn = base.a[2:]
        recv, frm, to = conn[0], conn[1], conn[2]
        # validated
        vals = [v for v in valids(G) if v.op == 'app']
        hit = [v for v in vals if matches(v.a[3], O, whole, G)]
        same_base = [v for v in vals if any(strip(o)[0] is base for o, _ in arms(v.a[3], ()))]
        ok = True if hit else False
        why = ''
        if not hit:
            # acceptance hidden in a compound condition
            for v in {t for l in G for t in subterms(l) if t.op == 'app' and t.a[0] == 'call:IsPathValid'} - set(vals):
                if matches(v.a[3], O, whole, G):
                    imp = decide_implied(G, v)
                    ok = True if imp is True else None if imp is None and ok is False else ok
        if not hit and ok is False:
            why = ('the motion was changed after it was accepted: accepted %s, attached %s' % (clip(same_base[0].a[3], 150), clip(O, 150))) if same_base else \
                'no acceptance of the motion %s on this way to the attachment (%s)' % (clip(base, 150), '; '.join(clip(v.a[3], 80) for v in vals) or 'no validation at all')
        C.ob('validated', '%s: the motion to the new node was accepted by the validator as it is stored' % s.nm, w, ok, why)
        for v in hit:
            val = [t for t in subterms(v.a[2]) if t.op == 'fld' and 'alidator' in str(t.a[1])]
            C.ob('validated', '%s: the validator asked is the configured one' % s.nm, w, True if val else None, clip(v.a[2]))
        C.ob('connection', '%s: the motion is made by the configured connection' % s.nm, w, True if any(t.op == 'fld' and 'onnection' in str(t.a[1]) for t in subterms(recv)) else None, clip(recv))
        # starts at the parent
        pn = owner(frm, 'state')
        ok = None
        if pn is not None:
            ok = True if pn is N else False if N.op in ('app', 'vget', 'sym') and pn.op in ('app', 'vget', 'sym') else None
        if ok is None and N.op == 'phi' and N.a[0][0] in I.loops and changes(I.loops[N.a[0][0]], N):
            ok = False
        if ok is None and pn is None and owner(to, 'state') is N:
            ok = False
        C.ob('parent', '%s: the motion stored starts at the state of the parent' % s.nm, w, ok, 'motion from the state of %s, parent %s' % (clip(pn if pn is not None else frm, 150), clip(N, 150)))
        # ends in the new state
        fin = X.op == 'app' and X.a[0] == 'call:GetFinalState'
        ok = None
        if fin:
            xo = X.a[2]
            if matches(xo, O, whole, G):
                ok = True
            elif to is X:
                ok = True if not cuts else False
            else:
                xb = {strip(o)[0] for o, _ in arms(xo, ())}
                ok = False if base not in xb and not (to.op == 'app' and to.a[0] == 'call:GetFinalState' and decide_same(to, X)[0]) or base in xb else None
        elif to is X:
            ok = True if not cuts else False
        C.ob('end', '%s: the motion stored ends in the new state' % s.nm, w, ok, 'new state %s, motion to %s%s' % (clip(X, 150), clip(to, 150), ', cut' if cuts else ''))
        # cost
        if c is not None:
            ln = [t for t in subterms(c) if t.op == 'app' and t.a[0] == 'call:GetLength']
            own = [t for t in subterms(c) if t.op == 'fld' and t.a[1] == 'costFromGoal']
            lenO = [t for t in ln if matches(t.a[2], O, whole, G)]
            costN = [t for t in own if owner(t, 'costFromGoal') is N]
            l0, c0 = sym('pos:len', 'r'), sym('pos:parentcost', 'r')
            t = subst(c, {**{x: l0 for x in lenO}, **{x: c0 for x in costN}})
            left = [x for x in subterms(t) if x.op == 'app' and x.a[0] == 'call:GetLength' or x.op == 'fld' and x.a[1] == 'costFromGoal']
            ok = True if t is add(l0, c0) else None
            if ok is None:
                if t.op == 'phi' and t.a[0][0] in I.loops and changes(I.loops[t.a[0][0]], t):
                    ok = False
                if not ln and not contains_op(t, ('phi', 'unk', 'hphi')):
                    ok = False
                if left or not contains_op(t, ('phi', 'unk', 'app', 'fld', 'vget')):
                    ok = False
            C.ob('cost', '%s: the cost stored is that of the parent plus the length of the motion stored' % s.nm, w, ok, 'cost %s' % clip(t, 250))

    def cut(s, e):
        """steering towards a sample: at most the connection distance"""
        C = s.C
        w = s.site(e)
        r = e.args[0]
        ds = [t for t in subterms(r) if t.op == 'fld' and t.a[1] == 'maxConnectionDistance']
        ln = [t for t in subterms(r) if t.op == 'app' and t.a[0] == 'call:GetLength']
        if not ds or not ln:
            C.ob('distance', '%s: a motion towards a sample is cut at the connection distance' % s.nm, w, None if not isconst(r) else False, clip(r, 150))
            return
        l0, d0 = sym('pos:len', 'r'), sym('pos:dist', 'r')
        t = subst(r, {**{x: l0 for x in ln}, **{x: d0 for x in ds}})
        g = tuple(subst(l, {**{x: l0 for x in ln}, **{x: d0 for x in ds}}) for l in literals(e.guard))
        g = tuple(l for l in g if any(x in (l0, d0) for x in subterms(l)))
        C.same('distance', '%s: a motion towards a sample is cut to the connection distance when longer' % s.nm, w, simp_under(mul(t, l0), g), simp_under(ite(lt(d0, l0), d0, l0), g), guard=g)

def lits(g):
    return tuple(literals([g]))

def changes(L, ph):
    """a round of the loop can give the carried value another one"""
    k = [k for k, v in L.phi.items() if v is ph]
    return bool(k) and any(v is not ph for v, _ in arms(L.next[k[0]], ()))

def contains(t, x):
    return any(y is x for y in subterms(t))

def connects(o):
    return any(t.op == 'app' and t.a[0] == 'call:Connect' for t in subterms(o))

def arms(O, g):
    if O.op == 'ite':
        return [x for c, a in ((O.a[0], O.a[1]), (not_(O.a[0]), O.a[2])) for x in arms(a, g + lits(c))]
    return [(O, g)]

def strip(O):
    """(the connection call, cuts applied, anything else applied)"""
    cuts, other = [], []
    while O.op == 'app' and str(O.a[0]).startswith('mut:'):
        (cuts if O.a[0] == 'mut:Truncate' else other).append(O)
        O = O.a[2]
    if O.op == 'app' and O.a[0] == 'call:Connect':
        return O, cuts, other
    return None, cuts, other or [O]

def valids(G):
    return [l for l in G if l.op == 'app' and l.a[0] == 'call:IsPathValid'] + \
           [x for l in G if l.op == 'and' for x in valids(lits(l))]

def matches(a, O, whole, G):
    """the object a is the motion O on this way"""
    return a is O or a is whole or simp_under(a, G) is O

def owner(t, field):
    """the node pointer a field of a node is read through"""
    if not (t.op == 'fld' and t.a[1] == field):
        return None
    t = t.a[0]
    while t.op == 'fld':
        t = t.a[0]
    if t.op == 'obj':
        return t.a[0]
    if t.op in ('hsel', 'hget', 'idx', 'hread'):
        return t.a[-1]
    ts = [x for x in t.a if isinstance(x, T)]
    return ts[-1] if ts and t.op not in ('app', 'sym', 'phi', 'ite') else None

def rrt(C):
    Growth(C, 'Planner::RRT').run()

def rrtstar(C):
    Growth(C, 'Planner::RRTStar').run()

def run(C):
    C.each(rrt, rrtstar)
