"""Effect analysis of the frontier: what every operation adds to and deletes from the ordered store and from the lookup is read off
its symbolic result, per outcome, and compared; the binary searches are checked transition by transition against the order they keep."""
from lib import *

this = sym('this', 'p')
TECHNIQUE = 'static analysis: symbolic effect comparison of the two containers per outcome, search-loop transition rules'

def outcomes(t):
    """(guard, value) leaves of a conditional value"""
    if t.op == 'ite':
        return [((t.a[0],) + g, v) for g, v in outcomes(t.a[1])] + [((not_(t.a[0]),) + g, v) for g, v in outcomes(t.a[2])]
    return [((), t)]

def settled(I, t):
    """replace the value of a container at a loop head by its value before the loop when no way round the loop changes it"""
    for _ in range(4):
        m = {}
        for L in I.loops.values():
            for k, ph in L.phi.items():
                if L.next.get(k) is ph and L.init.get(k) is not None:
                    m[ph] = L.init[k]
        t2 = subst(t, m)
        if t2 is t:
            return t
        t = t2
    return t

def effect(t, base):
    """list of ('add', x) / ('del', x) / ('clear',) turning base into t, None when not understood"""
    if t is base:
        return []
    if t.op == 'push':
        e = effect(t.a[0], base)
        return None if e is None else e + [('add', t.a[1])]
    if t.op == 'vins':
        e = effect(t.a[0], base)
        return None if e is None else e + [('add', t.a[2])]
    if t.op == 'verase':
        e = effect(t.a[0], base)
        return None if e is None else e + [('del', vget(t.a[0], t.a[1], 'i'))]
    if t.op == 'vpop':
        e = effect(t.a[0], base)
        return None if e is None else e + [('del', vget(t.a[0], sub(size(t.a[0]), ONE), 'i'))]
    if t.op == 'vec' and not t.a:
        return [('clear',)]
    if t.op == 'emp':
        return [('clear',)]
    if t.op == 'ins':
        e = effect(t.a[0], base)
        return None if e is None else e + [('add', t.a[1])]
    if t.op == 'del':
        e = effect(t.a[0], base)
        return None if e is None else e + [('del', t.a[1])]
    return None

def fn(C, ks, n, np):
    r = [k for k in ks if C.P.F[k]['n'] == n and len(C.P.F[k]['ps']) == np]
    C.need(r, 'no Frontier::' + n)
    return sorted(r)[0]

def frontier(C):
    ks = [k for k, f in C.P.F.items() if (f.get('cls') or '').startswith('Planner::Frontier<int') and f.get('body')]
    C.need(ks, 'no Frontier')
    cls = C.P.F[ks[0]]['cls']
    x = sym('elmt', 'i')
    ops = {n: fn(C, ks, n, np) for n, np in (('Push', 1), ('Remove', 1), ('Pop', 0), ('Clear', 0), ('Find', 1), ('Top', 0), ('Size', 0), ('Empty', 0))}
    base = C.interp()
    o0 = raw('obj', this)
    runs = {n: C.run(k, args={0: x} if C.P.F[k]['ps'] else {}) for n, k in ops.items()}
    # the two containers: the vector-like and the set-like field the operations change
    o1 = runs['Clear'].read(runs['Clear'].S, runs['Clear'].deref(this, cls))
    conts = {}
    for n in ('Push', 'Pop', 'Clear'):
        I = runs[n]
        o = I.read(I.S, I.deref(this, cls))
        if o.op == 'st':
            for fn_, v in o.a[2]:
                conts.setdefault(fn_, []).append(v)
    vecs = [f for f, vs in conts.items() if any(t.op in ('push', 'vins', 'vpop', 'vec') for v in vs for t in subterms(v))]
    sets = [f for f, vs in conts.items() if any(t.op in ('ins', 'del', 'emp') for v in vs for t in subterms(v))]
    C.need(len(vecs) == 1 and len(sets) == 1 and vecs != sets, 'the frontier is not an ordered vector with a set lookup (%s, %s)' % (vecs, sets))
    V, M = fld(o0, vecs[0], 'o'), fld(o0, sets[0], 'o')
    has = raw('has', M, x)
    last = vget(V, sub(size(V), ONE), 'i')
    def after(n):
        I = runs[n]
        o = I.read(I.S, I.deref(this, cls))
        return I, settled(I, fld(o, vecs[0], 'o')), settled(I, fld(o, sets[0], 'o'))
    def same_effect(n, guard, want, what):
        """under guard both containers change by want (a list of add/del); want None: just agree"""
        I, v, s = after(n)
        w = C.where(ops[n])
        vv, ss = simp_under(v, guard), simp_under(s, guard)
        for gv, tv in outcomes(vv):
            for gs, ts in outcomes(ss):
                g = unfold(I, guard + gv + gs)
                g = tuple(settled(I, l) for l in g)
                if entails(g, FALSE) or unsat(g):
                    continue
                ev, es = effect(tv, V), effect(ts, M)
                if es is not None and any(e == ('add', x) for e in es) and entails(g, has):
                    es = [e for e in es if e != ('add', x)]           # inserting an element already present changes nothing
                if es is not None and any(e == ('del', x) for e in es) and entails(g, not_(has)):
                    es = [e for e in es if e != ('del', x)]
                if any(searched(t) for l in literals(g) if l is not has for t in subterms(l)) and ev == [] and n == 'Remove' and entails(g, has):
                    # the element was not met in the ordered store: excluded by agreement of the two before the call
                    C.count('outcomes excluded by the invariant')
                    continue
                for nm, e, wnt in (('ordered store', ev, want), ('lookup', es, want)):
                    ok = None
                    if e is not None:
                        ok = match(e, wnt, g, x)
                    C.ob('effect', '%s: %s: the %s' % (n, what, nm), w, ok, 'changes by %s, required %s, when %s' % (desc(e), desc(wnt), clip_guard(list(g), 200)))
    same_effect('Push', (not_(has),), [('add', x)], 'a new element is added')
    same_effect('Push', (has,), [], 'an element already present changes nothing')
    same_effect('Remove', (has,), [('del', x)], 'a present element is deleted')
    same_effect('Remove', (not_(has),), [], 'an absent element changes nothing')
    same_effect('Pop', (), [('del', last)], 'the last element is deleted')
    same_effect('Clear', (), [('clear',)], 'everything is deleted')
    for n in ('Find', 'Top', 'Size', 'Empty'):
        same_effect(n, (), [], 'nothing changes')
    # answers
    I = runs['Push']
    sec = fld(I.ret, 'second', 'b')
    C.same('answer', 'Push says whether it inserted', C.where(ops['Push']), sec, not_(has))
    C.same('answer', 'Remove says how many it deleted', C.where(ops['Remove']), runs['Remove'].ret, ite(has, ONE, ZERO))
    C.same('answer', 'Pop returns the element Top shows', C.where(ops['Pop']), runs['Pop'].ret, runs['Top'].ret)
    C.same('answer', 'Top is the last element of the ordered store', C.where(ops['Top']), runs['Top'].ret, last)
    r = runs['Find'].ret
    C.ob('answer', 'Find answers null exactly for an absent element', C.where(ops['Find']), decide_same(eq(r, NULL), not_(has))[0], clip(r))
    C.same('answer', 'Size is that of the ordered store', C.where(ops['Size']), runs['Size'].ret, size(V))
    C.same('answer', 'Empty agrees with Size', C.where(ops['Empty']), runs['Empty'].ret, eq(size(V), ZERO))
    # order
    pivots(C, runs['Push'], V, x, C.where(ops['Push']), 'Push')
    pivots(C, runs['Remove'], V, app('stored', M, x, ty='i'), C.where(ops['Remove']), 'Remove')

def keyed(C):
    """elements of equal priority are not equal elements: what is deleted from the order is the element found by its key"""
    ks = [k for k, f in sorted(C.P.F.items()) if f['n'] == 'Remove' and f.get('body') and (f.get('cls') or '').startswith('Planner::Frontier<Planner::GridCell')]
    C.need(ks, 'no Frontier of grid cells')
    I = C.run(ks[0])
    cls = C.P.F[ks[0]]['cls']
    x = sym(C.P.F[ks[0]]['ps'][0]['n'], 'o')
    w = C.where(ks[0])
    V0 = fld(raw('obj', this), 'm_vec', 'o')
    n = 0
    for gs, t in outcomes(fld(I.read(I.S, I.deref(this, cls)), 'm_vec', 'o')):
        if t.op != 'verase':
            continue
        g = tuple(settled(I, l) for l in unfold(I, gs))
        if unsat(g):
            continue
        n += 1
        el = vget(t.a[0], settled(I, t.a[1]), 'o')
        st_ = [y for l in g for y in subterms(l) if y.op == 'app' and y.a[0] == 'stored'] or [x]
        pos = lambda y, c: fld(fld(y, 'position', 'o'), c, 'i')
        f = or_(*[and_(eq(pos(el, 'row'), pos(y, 'row')), eq(pos(el, 'col'), pos(y, 'col'))) for y in {x, st_[0]}])
        what = 'Remove: the entry deleted from the order has the key of the element to delete, whatever else shares its priority'
        if entails(g, f) or any(entails(g, y) for y in (f.a if f.op == 'or' else (f,))):
            C.ob('key', what, w, True)
            continue
        ls = [l for l in literals(list(g)) if any(y is el for y in subterms(l)) and 'forall' not in ops_of(l)]
        bad = None
        opq = not ls or any(y.op == 'find_if' or y.op == 'app' and (y.a[0] == 'find_if' or str(y.a[0]).startswith('alg:')) for y in subterms(el))
        for seed in range(0 if opq else 80):
            fx = {}
            if seed % 2:
                fx = {fld(el, 'value', 'r'): 1, fld(st_[0], 'value', 'r'): 1}
            r = RI(seed, fixed=fx)
            try:
                if all(r.ev(l) for l in ls) and not r.ev(f):
                    bad = False
                    break
            except Exception:
                break
        C.ob('key', what, w, bad, 'deleted when ' + clip_guard(ls, 250))
    C.need(n, 'Remove deletes nothing')

def searched(t):
    """depends on how far a search got"""
    return t.op in ('allpass', 'forall', 'phi', 'find_if') or t.op == 'app' and (t.a[0] in ('allpass', 'find_if') or str(t.a[0]).startswith('alg:'))

def unfold(I, g):
    """leaving a loop early means that its one early exit was taken"""
    out = list(g)
    ls = literals(g)
    for L in I.loops.values():
        A = getattr(L, 'allpass', None)
        if A is not None and not_(A) in ls:
            ex = [q for q in L.exits if q[0] != 'normal']
            if len(ex) == 1:
                out += literals(ex[0][1].guard if hasattr(ex[0][1], 'guard') else ex[0][1])
    return tuple(out)

def unsat(g):
    try:
        return decide_implied(g, FALSE) is True
    except Exception:
        return False

def desc(e):
    if e is None:
        return '?'
    return ', '.join('%s %s' % (q[0], clip(q[1], 80) if len(q) > 1 else '') for q in e) or 'nothing'

def same_elem(a, b, g):
    """True when a and b are the same element under g, False when a random interpretation tells them apart"""
    if a is b or entails(g, eq(a, b)):
        return True
    strip = lambda t: t.a[-1] if t.op == 'app' and t.a[0] == 'stored' else t
    if strip(a) is strip(b):
        return True
    for l in literals(g):
        for y in ([t for t in subterms(l) if t.op == 'app' and t.a[0] == 'stored']):
            if strip(y) is b and entails(g, eq(a, y)):
                return True
            if strip(y) is a and entails(g, eq(b, y)):
                return True
    if any(t.op == 'find_if' or t.op == 'app' and (t.a[0] == 'find_if' or str(t.a[0]).startswith('alg:')) for y in (a, b) for t in subterms(y)):
        return None
    r = decide_implied(g, eq(a, b))
    return r if r is not None else None

def match(e, want, g, x):
    if len(e) != len(want):
        return False
    for p, q in zip(e, want):
        if p[0] != q[0]:
            return False
        if len(p) > 1:
            r = same_elem(p[1], q[1], g)
            if r is not True:
                return r
    return True

def pivots(C, I, V, val, w, nm):
    """binary search: whatever moves its borders is justified by the comparison made"""
    n = 0
    for L in I.loops.values():
        idx = {}
        for k, ph in L.phi.items():
            if ph.op == 'vit':
                idx[k] = ph
        if len(idx) < 2 or L.cond is None:
            continue
        lo = [k for k in idx if L.init[k].op == 'vit' and L.init[k].a[1] is ZERO and L.next[k].op == 'vit' and any(t is idx[k].a[1] for t in subterms(L.cond))]
        hi = [k for k in idx if L.init[k].op == 'vit' and L.init[k].a[1] is size(V) and L.next[k].op == 'vit' and any(t is idx[k].a[1] for t in subterms(L.cond))]
        if len(lo) != 1 or len(hi) != 1:
            continue
        n += 1
        lo, hi = lo[0], hi[0]
        at = lambda i: vget(V, i, 'i')
        for k, side in ((lo, 'lower'), (hi, 'upper')):
            for g, v in outcomes(L.next[k].a[1]):
                if v is idx[k].a[1]:
                    continue
                gg = g + tuple(L.headguard or ()) + (lt(idx[lo].a[1], idx[hi].a[1]),)
                if side == 'lower':
                    strict = nm == 'Remove'
                    c = lt if strict else le
                    f = or_(c(at(v), val), c(at(sub(v, ONE)), val))
                else:
                    f = le(val, at(v))
                C.ob('order', '%s: the %s border of the search only moves past elements %s' % (nm, side, 'before the one sought' if side == 'lower' else 'not before the one sought'), w,
                     decide_implied(gg, f), 'moved to %s when %s' % (clip(v, 120), clip_guard(list(g), 200)))
        for e in L.exits:
            if e[0] != 'break':
                continue
            g = tuple(literals(e[1].guard if hasattr(e[1], 'guard') else e[1]))
            C.count('search exits')
    # where the element goes
    if nm == 'Push':
        for t in {t for t in subterms(fld(I.read(I.S, I.deref(this, C.P.F[I.key]['cls'])), V.a[1], 'o')) if t.op == 'vins'}:
            if t.a[0] is not V:
                continue
            for g, r in outcomes(t.a[1]):
                if any(l.op == 'allpass' or (l.op == 'app' and l.a[0] == 'allpass') for l in literals(g)):
                    continue
                if any(y.op == 'phi' for y in subterms(r)) is False and not isconst(r):
                    continue
                gb = [q for L in I.loops.values() for q in L.exits if q[0] == 'break']
                if len(gb) != 1 or gb[0][1] is None:
                    continue
                g2 = tuple(literals(gb[0][1].guard if hasattr(gb[0][1], 'guard') else gb[0][1])) + g
                f = and_(or_(le(r, ZERO), le(vget(V, sub(r, ONE), 'i'), val)), or_(le(size(V), r), le(val, vget(V, r, 'i'))))
                C.ob('order', 'Push: the element goes between one not after it and one not before it', w, decide_implied(g2, f), 'position %s when %s' % (clip(r, 120), clip_guard(list(g2), 300)))
    C.count('binary searches', n)

def run(C):
    C.assume.append('elements compare by a strict weak order and equal elements compare equal; the two containers agree before each operation (induction)')
    C.each(frontier, keyed)
