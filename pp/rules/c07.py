"""Links of the node tree, and the pairing of node lookup and spatial index: pre/post conditions of each operation, decided on its transfer function."""
from lib import *
from rules.c03 import arms, rets, site

this = sym('this', 'p')
me = raw('obj', this)
NULL = raw('null')
TECHNIQUE = 'static analysis: inductive link invariants (pre/post heap effect of every tree operation) on the symbolic transfer functions'
ZERO, ONE = const(0), const(1)

def node_class(C):
    r = sorted({f.get('cls') for f in C.P.F.values() if (f.get('cls') or '').startswith('Planner::Node<Planner::TreeNodeData<') and f['n'] == 'RemoveChild' and f.get('body')})
    C.need(r, 'no tree nodes')
    return r[0]

def op(C, cls, n, np=None):
    r = [k for k in sorted(C.P.F) if C.P.F[k].get('cls') == cls and C.P.F[k]['n'] == n and C.P.F[k].get('body') and (np is None or len(C.P.F[k]['ps']) == np)]
    C.need(r, 'no ' + n)
    return r[0]

def null():
    from interp import NULL as N_
    return N_

class Heap:
    def __init__(self, I, S, cls, facts):
        self.I, self.S, self.cls, self.facts = I, S, cls, tuple(facts)
    def get(self, p, f):
        return simp_under(fld(self.I.read(self.S, self.I.deref(p, self.cls)), f, 'p' if f == 'm_parent' else 'o'), self.facts)

def through(I, t, facts, safe):
    """t read past loops that only store to objects other than the safe ones"""
    for x in [x for x in subterms(t) if x.op == 'hphi']:
        sts = [e for e in I.events if e.kind == 'store' and (e.loops or ())[:len(x.a[0])] == x.a[0]]
        ok = bool(sts)
        for e in sts:
            if e.recvlv is None or e.recvlv.root[0] == 'L':
                continue
            rs = owners(e.recvlv, outside(facts, e.loops[:1] if len(x.a[0]) > 1 else ()))
            ok = ok and bool(rs) and all(r is not None and grandchild(r, safe, facts) for r in rs)
        if ok:
            t = simp_under(subst(t, {x: x.a[2]}), facts)
    return t

def outside(facts, loops):
    """the facts that do not speak of a pass of another loop"""
    return tuple(l for l in facts if not any(x.op == 'iv' and x.a[0] not in [tuple(loops[:i + 1]) for i in range(len(loops))] and x.a[0] not in loops for x in subterms(l)))

def owners(lv, G, n=0):
    """the objects a store may reach"""
    if lv is None or n > 8:
        return {None}
    if lv.root[0] == 'I':
        c = lv.root[1]
        if entails(G, c):
            return owners(lv.root[2], G, n + 1)
        if entails(G, not_(c)):
            return owners(lv.root[3], G, n + 1)
        return owners(lv.root[2], G + (c,), n + 1) | owners(lv.root[3], G + (not_(c),), n + 1)
    return {lv.root[1]} if lv.root[0] == 'O' else {None}

def grandchild(r, safe, facts):
    """r is an element of the children of one of the given nodes (and so none of them)"""
    r = simp_under(r, facts)
    if r.op != 'vget':
        return False
    b = r.a[0]
    while b.op == 'vset' and isnull(b.a[2]):
        b = b.a[0]
    return b.op == 'fld' and b.a[1] == 'm_children' and b.a[0].op == 'obj' and any(b.a[0].a[0] is s for s in safe)

def isnull(t):
    return t.op == 'null' or str(t) == 'null'

def found(t):
    """what a search by predicate says of the element it found"""
    r = []
    for x in subterms(t):
        if x.op == 'find_if' or x.op == 'app' and x.a[0] == 'find_if':
            r.append(subst(x.a[-1], {raw('iv', ('#',)): x}))
    return tuple(r)

def judge_ptr(C, rule, what, w, got, want, facts):
    """two pointers: the same, or told apart"""
    facts = tuple(facts) + found(got)
    if got is want or entails(facts, eq(got, want)):
        C.ob(rule, what, w, True)
        return True
    vague = any(x.op in ('unk', 'phi', 'hphi') for x in subterms(got))
    C.ob(rule, what, w, None if vague else False, 'it is %s' % clip(got, 140))
    return False

def contains(t, x):
    return any(y is x for y in subterms(t))

def at(v, base):
    """(kind, index, value) turning a children vector into another; None when not understood"""
    if v is base:
        return ('same', None, None)
    if v.op == 'push' and v.a[0] is base:
        return ('add', None, v.a[1])
    if v.op == 'vins' and v.a[0] is base:
        return ('add', v.a[1], v.a[2])
    if v.op == 'verase':
        b = v.a[0]
        while b.op == 'vset' and b.a[1] is v.a[1]:
            b = b.a[0]
        if b is base:
            return ('del', v.a[1], None)
    if v.op == 'vpop' and v.a[0].op == 'vset':
        b, i, x = v.a[0].a
        hole = isnull(x)
        while b.op == 'vset' and b.a[1] is i:
            b = b.a[0]
        if b is base and hole:
            return ('lose', i, None)
        if b is base and contains(x, vget(base, sub(size(base), ONE), 'p')):
            return ('del', i, None)
    if v.op == 'vset':
        b = v.a[0]
        while b.op == 'vset' and b.a[1] is v.a[1]:
            b = b.a[0]
        if b is base:
            return ('set', v.a[1], v.a[2])
    return None

def add_child(C):
    N = node_class(C)
    k = op(C, N, 'AddChild', 1)
    I = C.run(k)
    w = C.where(k)
    p = sym(C.P.F[k]['ps'][0]['n'], 'p')
    node = [x for e in rets(I) for x in subterms(e.args[0]) if x.op == 'sym'] or [p]
    node = p
    facts = (not_(eq(this, node)),)
    for e in rets(I):
        h = Heap(I, e.S, N, facts + tuple(literals(e.guard)))
        c = at(h.get(this, 'm_children'), fld(me, 'm_children', 'o'))
        judge_ptr(C, 'add', 'AddChild: the parent recorded in the child is the node that now owns it', w, h.get(node, 'm_parent'), this, h.facts)
        C.ob('add', 'AddChild: the child is owned by the node it is added to', w, None if c is None else c[0] == 'add' and c[2] is node, clip(h.get(this, 'm_children'), 120))
        C.same('add', 'AddChild: the parent of the node added to stays', w, h.get(this, 'm_parent'), fld(me, 'm_parent', 'p'))
        C.same('add', 'AddChild: the child keeps its own children', w, h.get(node, 'm_children'), fld(raw('obj', node), 'm_children', 'o'))
        judge_ptr(C, 'add', 'AddChild: the node returned is the child', w, simp_under(e.args[0], h.facts), node, h.facts)

def apart(I, e):
    """a node is not its own child, and children are distinct"""
    r = []
    for l in list(literals(e.guard)) + [e.args[0]]:
        for x in subterms(l):
            if x.op == 'vget' and x.a[0] is fld(me, 'm_children', 'o'):
                r.append(not_(eq(this, x)))
    return tuple(dict.fromkeys(r))

def remove_child(C):
    N = node_class(C)
    k = op(C, N, 'RemoveChild', 1)
    I = C.run(k)
    w = C.where(k)
    node = sym(C.P.F[k]['ps'][0]['n'], 'p')
    n = 0
    for e in rets(I):
        for v, g in arms(e.args[0]):
            facts = tuple(literals(e.guard)) + g + apart(I, e) + (not_(eq(this, node)),)
            if unsat(facts):
                continue
            h = Heap(I, e.S, N, facts)
            c = at(h.get(this, 'm_children'), fld(me, 'm_children', 'o'))
            if isnull(v):
                C.ob('remove', 'RemoveChild: nothing changes when the node is not a child', w, None if c is None else c[0] == 'same', clip(h.get(this, 'm_children'), 120))
                continue
            n += 1
            judge_ptr(C, 'remove', 'RemoveChild: the node handed out is the one asked for', w, v, node, facts)
            par = h.get(v, 'm_parent')
            C.ob('remove', 'RemoveChild: a node without an owner has no parent', w, True if isnull(par) else None if any(x.op in ('unk', 'hphi', 'phi') for x in subterms(par)) else False, 'its parent is still %s' % clip(par, 100))
            if c is None:
                C.ob('remove', 'RemoveChild: the node is no longer among the children', w, None, clip(h.get(this, 'm_children'), 140))
            else:
                own = c[0] == 'del' and (c[1] is v.a[1] if v.op == 'vget' else None)
                C.ob('remove', 'RemoveChild: exactly the node handed out leaves the children', w, own if c[0] == 'del' else False, clip(h.get(this, 'm_children'), 140))
    C.need(n, 'RemoveChild hands nothing out')

def replace_child(C):
    N = node_class(C)
    k = op(C, N, 'ReplaceChild', 3)
    ps = C.P.F[k]['ps']
    brat, new, adopt = sym(ps[0]['n'], 'p'), sym(ps[1]['n'], 'p'), sym(ps[2]['n'], 'b')
    w = C.where(k)
    n = 0
    for flag in (TRUE, FALSE):
        I = C.run(k, args={2: flag})
        taken, keep = (), ()
        for e in rets(I):
            for v, g in arms(e.args[0]):
                facts = tuple(literals(e.guard)) + g + apart(I, e) + tuple(not_(eq(a, b)) for a, b in ((this, brat), (this, new), (brat, new)))
                if v.op == 'vget':
                    facts += (not_(eq(new, v)),)
                    taken += (v,)
                if unsat(facts) or isnull(v):
                    continue
                n += 1
                keep = keep or facts
                h = Heap(I, e.S, N, facts)
                sfx = ' (children adopted)' if flag is TRUE else ''
                judge_ptr(C, 'replace', 'ReplaceChild: the node handed out is the one replaced' + sfx, w, v, brat, facts)
                par = through(I, h.get(v, 'm_parent'), facts, (v, brat))
                C.ob('replace', 'ReplaceChild: the node handed out has no parent' + sfx, w, True if isnull(par) else None if any(x.op in ('unk', 'hphi', 'phi') for x in subterms(par)) else False, clip(par, 140))
                judge_ptr(C, 'replace', 'ReplaceChild: the parent recorded in the new child is the node that now owns it' + sfx, w, h.get(new, 'm_parent'), this, facts)
                c = at(h.get(this, 'm_children'), fld(me, 'm_children', 'o'))
                C.ob('replace', 'ReplaceChild: the new child takes the place of the old one' + sfx, w,
                     None if c is None else c[0] == 'set' and c[2] is new and (v.op != 'vget' or c[1] is v.a[1]), clip(h.get(this, 'm_children'), 140))
                if flag is TRUE:
                    kids = h.get(new, 'm_children')
                    old = fld(raw('obj', v), 'm_children', 'o')
                    old2 = fld(raw('obj', brat), 'm_children', 'o')
                    C.ob('replace', 'ReplaceChild: the new child adopts the children of the one replaced', w, True if kids is old or kids is old2 else False if kids is fld(raw('obj', new), 'm_children', 'o') else None, clip(kids, 140))
                else:
                    C.same('replace', 'ReplaceChild: the children stay where they are unless adopted', w, h.get(new, 'm_children'), fld(raw('obj', new), 'm_children', 'o'))
        if flag is TRUE:
            adopt_links(C, I, k, new, brat, keep, taken)
    C.need(n, 'ReplaceChild hands nothing out')

def adopt_links(C, I, k, new, brat, facts, taken):
    """every adopted child records its new owner"""
    w = C.where(k)
    what = 'ReplaceChild: every adopted child records its new parent'
    st_ = [x for x in I.events if x.kind == 'store' and x.loops and is_parent(x)]
    inner = []
    for x in st_:
        f = tuple(literals(x.guard)) + outside(facts, x.loops[:1])
        rs = [simp_under(r, f) for r in owners(x.recvlv, f) if r is not None]
        if rs and all(grandchild(r, taken + (brat,), f) for r in rs):
            inner.append((x, rs))
    if not inner:
        unk_ = [x for x in st_ if len(x.loops) > 1] or [L for L in I.loops.values() if len(L.id) > 1] or [e for e in I.events if e.kind == 'call' and e.name in ('for_each', 'transform', 'AddChild')]
        C.ob('replace', what, w, None if unk_ else False, 'nothing stores the parent of the adopted children')
        return
    for x, rs in inner:
        v = x.args[-1] if x.args else x.res
        C.ob('replace', what, w, True if v is new or entails(facts, eq(v, new)) else None if v is None or v.op in ('ite', 'phi', 'unk') else False, 'stored: %s' % clip(v, 100))
        L = I.loops[x.loops]
        n = trips(L)
        i = rs[0].a[1]
        if len(x.loops) > 1 and L.range is None and n is not None and not isnum(n):
            c = sub(i, raw('iv', L.id))
            ds = [sub(add(simp_under(n, facts), c), size(fld(raw('obj', p), 'm_children', 'o'))) for p in taken + (brat,)]
            ok = None
            if isnum(c) and any(isnum(d) for d in ds):
                ok = c.a[1] == 0 and any(d is ZERO for d in ds)
            C.ob('replace', 'ReplaceChild: all adopted children are visited', w, ok, '%s children are visited, from the one at %s on' % (clip(n, 80), clip(c, 20)))

def is_parent(x):
    lv = getattr(x, 'recvlv', None) or getattr(x, 'lv', None)
    return lv is not None and lv.path and lv.path[-1][0] == 'f' and lv.path[-1][1] == 'm_parent'

def reparent(C):
    N = node_class(C)
    k = op(C, N, 'Reparent', 3)
    O = ('RemoveChild', 'AddChild', 'IsDescendantOf', 'IsAncestorOf')
    I = C.run(k, opaque=O, nomut=O)
    w = C.where(k)
    ps = C.P.F[k]['ps']
    child, newp, root = (sym(p['n'], 'p') for p in ps)
    ev = [e for e in I.events if e.kind == 'call' and e.name in O]
    par = fld(raw('obj', child), 'm_parent', 'p')
    desc = [e.res for e in ev if e.name == 'IsDescendantOf' and e.args and e.args[0] is child and rcv(e, ()) == {newp}] + \
           [e.res for e in ev if e.name == 'IsAncestorOf' and e.args and e.args[0] is newp and rcv(e, ()) == {child}]
    direct = [x for x in I.events if x.kind == 'store' and is_parent(x)]
    if not desc:
        C.ob('reparent', 'Reparent: a node is not put below its own descendant', w, False if not direct and not [e for e in ev if e.name == 'IsDescendantOf' and child in set(subterms(e.args[0])) or e.name == 'IsAncestorOf' and rcv(e, ()) == {child}] and not I.loops else None, 'nothing asks whether the new parent lies below the child')
        return
    D = desc[0]
    nul = null()
    for isroot in (False, True):
        for below in (False, True):
            if isroot and not below:
                continue    # every other node of the tree lies below the root
            facts = ((eq(par, nul) if isroot else not_(eq(par, nul))), (D if below else not_(D)))
            cs = ' (%s, new parent %s it)' % ('the root' if isroot else 'an inner node', 'below' if below else 'not below')
            run_, maybe = [], False
            for e in ev:
                g = tuple(literals(e.guard))
                if all(entails(facts, l) for l in g):
                    run_.append(e)
                elif not unsat(facts + g):
                    maybe = True
            det = [e for e in run_ if e.name == 'RemoveChild' and e.args[0] is child]
            detp = [e for e in run_ if e.name == 'RemoveChild' and e.args[0] is newp]
            adds = [(e, rcv(e, facts), simp_under(e.args[0], facts)) for e in run_ if e.name == 'AddChild']
            last = [a for a in adds if a[1] == {newp}]
            unknown = maybe or bool(direct)
            taken = det[0].res if det else root
            if not isroot:
                C.ob('reparent', 'Reparent: the node leaves its old parent' + cs, w, True if det and rcv(det[0], facts) == {par} else None if unknown or det and None in rcv(det[0], facts) else False, 'it is not removed from its parent')
            C.ob('reparent', 'Reparent: the node ends below its new parent' + cs, w, True if any(a[2] is taken for a in last) else None if unknown else False,
                 'added below the new parent: %s' % ', '.join(clip(a[2], 60) for a in last))
            if below:
                ok = bool(detp) and (not last or all(detp[0].seq < a[0].seq for a in last))
                C.ob('reparent', 'Reparent: a new parent below the node is detached first, so no cycle forms' + cs, w, True if ok else None if unknown else False, 'it keeps its place below the node')
                if detp:
                    rr = simp_under(read_root(I, root), facts)
                    if isroot:
                        C.ob('reparent', 'Reparent: the detached new parent becomes the root' + cs, w, True if rr is detp[0].res else None if unknown or rr is None else False, 'the root is %s' % clip(rr, 100))
                    else:
                        to = [a for a in adds if a[2] is detp[0].res]
                        C.ob('reparent', 'Reparent: the detached new parent takes the place of the node below its old parent' + cs, w, True if to and to[0][1] == {par} else None if unknown or to and None in to[0][1] else False,
                             'it is %s' % ('added to %s' % ', '.join(clip(x, 60) for x in to[0][1] if x is not None) if to else 'added to no node'))

def read_root(I, root):
    for e in reversed(I.events):
        pass
    try:
        return I.read(I.S, I.args_lv[2]) if hasattr(I, 'args_lv') else I.base(I.S, ('P', root.a[0], 'p'))
    except Exception:
        return None

def rcv(e, facts):
    from rules.c05 import at_root
    return at_root(e.recvlv, tuple(facts))

def walks(C):
    N = node_class(C)
    for nm in ('GetParent',):
        for k in [k for k in sorted(C.P.F) if C.P.F[k].get('cls') == N and C.P.F[k]['n'] == nm and C.P.F[k].get('body')]:
            I = C.run(k)
            C.same('walk', 'the parent reported is the one recorded', C.where(k), I.ret, fld(me, 'm_parent', 'p'))
    k = op(C, N, 'IsDescendantOf', 1)
    I = C.run(k)
    w = C.where(k)
    node = sym(C.P.F[k]['ps'][0]['n'], 'p')
    nul = null()
    for L in I.loops.values():
        for kk, p in L.phi.items():
            if ty(p) != 'p' or kk not in L.next:
                continue
            up = fld(raw('obj', p), 'm_parent', 'p')
            C.ob('walk', 'IsDescendantOf: the search goes up link by link', w, True if L.next[kk] is up else None if L.next[kk].op == 'ite' else False, clip(L.next[kk], 100))
            C.ob('walk', 'IsDescendantOf: the search starts at the parent, or at the node itself', w, True if L.init[kk] in (fld(me, 'm_parent', 'p'), this) else None, clip(L.init[kk], 100))
            for e in rets(I):
                g = tuple(literals(e.guard))
                if e.args[0] is TRUE and e.loops:
                    C.ob('walk', 'IsDescendantOf: true only when the node is met on the way up', w, True if entails(g, eq(p, node)) or entails(g, eq(up, node)) else None if any(node in set(subterms(l)) for l in g) else False)
    k = op(C, N, 'GetDepth', 0)
    I = C.run(k)
    w = C.where(k)
    for L in I.loops.values():
        ph = [(kk, p) for kk, p in L.phi.items() if ty(p) == 'p' and kk in L.next]
        if len(ph) != 1:
            continue
        kk, p = ph[0]
        up = fld(raw('obj', p), 'm_parent', 'p')
        iv = raw('iv', L.id)
        if L.next[kk] is not up or L.cond is None:
            C.ob('walk', 'GetDepth: the count follows the parents', w, False if L.next[kk] is p else None, clip(L.next[kk], 100))
            continue
        ds = [sub(v, iv) for v, g in arms(I.ret) if not unsat(g)]
        if not all(isnum(d) for d in ds):
            C.ob('walk', 'GetDepth: one is counted per link', w, None, clip(I.ret, 100))
            continue
        d = min(ds, key=lambda d: d.a[1])
        atp = L.cond is not_(eq(p, nul))
        atup = L.cond is not_(eq(up, nul))
        off = {(True, False, fld(me, 'm_parent', 'p')): 0, (False, True, this): 0, (True, False, this): -1, (False, True, fld(me, 'm_parent', 'p')): 1}.get((atp, atup, L.init[kk]))
        C.ob('walk', 'GetDepth: the root has depth 0 and each link counts one', w, None if off is None else d.a[1] == off and len(set(ds)) == 1, 'off by %s' % (d.a[1] if off is None else d.a[1] - off))

def tree_class(C):
    r = sorted({f.get('cls') for f in C.P.F.values() if (f.get('cls') or '').startswith('Planner::Tree<') and f['n'] == 'Extend' and f.get('body')}, key=lambda c: ('NullClass' not in c, c))
    C.need(r, 'no search tree')
    return r[0]

FL = ('GetNearestNode', 'BelongToTree', 'addPoints', 'buildIndex', 'knnSearch', 'getPoint')

def point(m, node=None):
    """(owner, path, rows, dims) of the storage handed to the index"""
    if m is None or m.op != 'app' or 'Matrix' not in str(m.a[0]):
        return None
    a = m.a[2:]
    if a and a[0].op == 'ite':
        alt = [p for p in (point(app(m.a[0], v, *a[1:], ty='o'), node) for v, _ in arms(a[0])) if p is not None]
        odd = [p for p in alt if node is not None and p[0][0] == 'O' and fresh(p[0][1]) is None and p[0][1].op in ('sym', 'app')]
        return (odd or [None])[0]
    if not a or a[0].op != 'addr':
        return None
    return a[0].a[0], a[0].a[1], (a[1] if len(a) > 1 else None), (a[2] if len(a) > 2 else None)

def fresh(v):
    """the node made in this call, handed on by AddChild"""
    if v.op == 'app' and v.a[0] == 'call:AddChild':
        v = v.a[3]
    return v if v.op == 'alloc' else None

def copies(t, node, state):
    """the state stored in the new node is the state it was made from (decided by its own obligation)"""
    m = {}
    for x in subterms(t):
        if x.op == 'fld' and x.a[1] == 'state' and x.a[0].op == 'fld' and x.a[0].a[0].op == 'obj' and fresh(x.a[0].a[0].a[0]) is node:
            m[x] = state
    return subst(t, m) if m else t

def registered(C, nm, I, T_, node, state, e, w, facts):
    """the state is entered in lookup and index together"""
    o = I.read(e.S, I.deref(this, T_))
    mp = simp_under(fld(o, 'm_exploredNodeMap', 'o'), facts)
    base = fld(me, 'm_exploredNodeMap', 'o')
    made = tuple(not_(eq(x.res, null())) for x in I.events if x.kind == 'call' and x.name == 'AddChild' and x.res is not None)
    facts = tuple(facts) + made
    for mp, g in arms(simp_under(mp, facts)):
        f = facts + g
        if unsat(f):
            continue
        ins = []
        m = mp
        while m.op in ('ins', 'mset'):
            ins.append((m.a[1], m.a[2] if len(m.a) > 2 else None))
            m = m.a[0]
        if m is not base and m.op != 'emp':
            C.ob('register', nm + ': the new node is entered in the lookup', w, None, clip(mp, 120))
        elif not ins:
            C.ob('register', nm + ': the new node is entered in the lookup', w, False, 'the lookup is left as it was when %s' % clip_guard(g, 120))
        else:
            key, val = ins[0]
            C.ob('register', nm + ': one entry is made in the lookup', w, len(ins) == 1, clip(mp, 120))
            key = copies(key, node, state)
            ok = decide_same(key, state, f)[0]
            C.ob('register', nm + ': the lookup key is the state of the new node', w, ok, clip(key, 120))
            val = simp_under(val, f)
            judge_ptr(C, 'register', nm + ': the lookup entry is the new node', w, fresh(val) or val, node, f)
    pts = [x for x in I.events if x.kind == 'call' and x.name in ('addPoints', 'buildIndex') and all(entails(facts, l) for l in literals(x.guard)) and x.seq < e.seq]
    may = [x for x in I.events if x.kind == 'call' and x.name in ('addPoints', 'buildIndex') and x not in pts]
    if not pts:
        C.ob('register', nm + ': the new state is entered in the spatial index', w, None if may and any(not unsat(facts + tuple(literals(x.guard))) for x in may) else False, 'the index is left as it was')
        return
    C.ob('register', nm + ': the spatial index gets one entry', w, len(pts) == 1)
    for x in pts:
        p = point(simp_under(x.args[0], facts), node)
        if p is None:
            C.ob('register', nm + ': the point in the index is the stored state of the new node', w, None, clip(x.args[0], 120))
            continue
        root, path, rows, dims = p
        own = root[0] == 'O' and (root[1] is node or fresh(root[1]) is node) and [y[1] for y in path] == ['m_data', 'state']
        C.ob('register', nm + ': the point in the index is the stored state of the new node (which lives as long as the index)', w,
             True if own else None if root[0] == 'O' and root[1].op in ('ite', 'unk', 'phi') else False, 'it is %s' % (str(root)[:100]))
        if rows is not None:
            C.same('register', nm + ': one point is entered', w, rows, ONE)
        if dims is not None and dims is not fld(me, 'm_dimensions', 'i'):
            C.ob('register', nm + ': every coordinate of the state is indexed', w, None if not isnum(dims) else dims.a[1] == 2, clip(dims))

def dims(C, T_):
    m = re.match(r'Planner::Tree<.*>, (\d+), ', T_)

def tree(C):
    T_ = tree_class(C)
    N = node_class(C)
    k = op(C, T_, 'Extend', 2)
    I = C.run(k, opaque=FL + ('AddChild',), nomut=('GetNearestNode', 'BelongToTree', 'AddChild'))
    w = C.where(k)
    target, source = sym(C.P.F[k]['ps'][0]['n'], 'o'), sym(C.P.F[k]['ps'][1]['n'], 'p')
    base = fld(me, 'm_exploredNodeMap', 'o')
    has = raw('has', base, target)
    nul = null()
    n = 0
    for e in rets(I):
        for v, g in arms(e.args[0]):
            facts = tuple(literals(e.guard)) + g
            if unsat(facts):
                continue
            if entails(facts, has):
                o = I.read(e.S, I.deref(this, T_))
                C.ob('extend', 'Extend: a state already in the tree is answered by its node', w, True if v is app('mget', base, target, ty='p') or v.op in ('app', 'mget') and 'mget' in str(v)[:6] else None, clip(v, 100))
                same = simp_under(fld(o, 'm_exploredNodeMap', 'o'), facts) is base
                ev = [x for x in I.events if x.kind == 'call' and x.name in ('addPoints', 'buildIndex', 'AddChild') and x.seq < e.seq and all(entails(facts, l) for l in literals(x.guard))]
                C.ob('extend', 'Extend: extending to a state already in the tree adds nothing', w, same and not ev, 'it changes the tree')
            elif isnull(v) or entails(facts, eq(v, nul)):
                ev = [x for x in I.events if x.kind == 'call' and x.name in ('addPoints', 'buildIndex', 'AddChild') and all(entails(facts, l) for l in literals(x.guard))]
                C.ob('extend', 'Extend: a failed extension adds nothing', w, not ev)
            elif entails(facts, not_(has)):
                n += 1
                new = fresh(v)
                if new is None:
                    C.ob('extend', 'Extend: the node returned is the new one', w, None, clip(v, 100))
                    continue
                near = [x for x in I.events if x.kind == 'call' and x.name == 'GetNearestNode']
                adds = [x for x in I.events if x.kind == 'call' and x.name == 'AddChild' and x.seq < e.seq]
                for side in (True, False):
                    f2 = facts + ((eq(source, nul) if side else not_(eq(source, nul))),)
                    if unsat(f2):
                        continue
                    if side and not near:
                        C.ob('extend', 'Extend: without a source the nearest node is extended', w, None)
                        continue
                    want = near[0].res if side else source
                    now = [x for x in adds if all(entails(f2, l) for l in literals(x.guard))]
                    may = [x for x in adds if x not in now and not unsat(f2 + tuple(literals(x.guard)))]
                    tgt = {simp_under(r, f2) if r is not None else None for x in now if fresh(x.args[0]) is new for r in rcv(x, f2)}
                    C.ob('extend', 'Extend: the new node hangs below %s' % ('the nearest node when no source is given' if side else 'the source given'), w,
                         True if tgt == {want} and len(now) == 1 else None if may or None in tgt or any(t.op in ('ite', 'unk', 'phi') for t in tgt) else False, 'added below: %s' % ', '.join(clip(t, 80) for t in tgt if t is not None))
                    if side:
                        C.ob('extend', 'Extend: the nearest node asked for is that of the target', w, near[0].args[0] is target, clip(near[0].args[0], 80))
                st_ = fld(fld(I.read(e.S, I.deref(new, N)), 'm_data', 'o'), 'state', 'o')
                C.same('extend', 'Extend: the new node holds the target state', w, simp_under(st_, facts), target, guard=facts)
                registered(C, 'Extend', I, T_, new, target, e, w, facts)
            else:
                C.ob('extend', 'Extend: whether the state is already in the tree is looked up first', w, False if not any(x.op == 'has' for l in facts for x in subterms(l)) else None, 'returned when %s' % clip_guard(facts, 120))
    C.need(n, 'Extend adds nothing')
    k = op(C, T_, 'CreateRootNode', 1)
    I = C.run(k, opaque=FL)
    w = C.where(k)
    start = sym(C.P.F[k]['ps'][0]['n'], 'o')
    for e in rets(I):
        v = e.args[0]
        facts = tuple(literals(e.guard))
        o = I.read(e.S, I.deref(this, T_))
        if v.op != 'alloc':
            C.ob('root', 'CreateRootNode: the node returned is the new root', w, None, clip(v, 80))
            continue
        judge_ptr(C, 'root', 'CreateRootNode: the tree owns the new root', w, simp_under(fld(o, 'm_rootNode', 'p'), facts), v, facts)
        C.same('root', 'CreateRootNode: the root holds the start state', w, simp_under(fld(fld(I.read(e.S, I.deref(v, N)), 'm_data', 'o'), 'state', 'o'), facts), start, guard=facts)
        registered(C, 'CreateRootNode', I, T_, v, start, e, w, facts)
    k = op(C, T_, 'Clear', 0)
    I = C.run(k)
    w = C.where(k)
    o = I.read(I.S, I.deref(this, T_))
    mp, kd, rt = fld(o, 'm_exploredNodeMap', 'o'), fld(o, 'm_kdTree', 'o'), fld(o, 'm_rootNode', 'p')
    for nm, t, f, good in (('the node lookup', mp, 'm_exploredNodeMap', mp.op == 'emp'), ('the spatial index', kd, 'm_kdTree', kd.op == 'app' and str(kd.a[0]).startswith('new:')), ('the root', rt, 'm_rootNode', isnull(rt))):
        C.ob('clear', 'Clear: %s is emptied' % nm, w, True if good else False if t is fld(me, f) or any(x is fld(me, f) for x in subterms(t)) and t.op == 'ite' else None, clip(t, 100))
    k = op(C, T_, 'Size', 0)
    C.same('clear', 'Size is the number of nodes in the lookup', C.where(k), C.run(k).ret, size(base))

def nearest(C):
    """an index entry is translated into the node stored for that very point"""
    T_ = tree_class(C)
    base = fld(me, 'm_exploredNodeMap', 'o')
    for nm in ('GetNearestNode', 'GetNearestNodes'):
        for k in [k for k in sorted(C.P.F) if C.P.F[k].get('cls') == T_ and C.P.F[k]['n'] == nm and C.P.F[k].get('body')]:
            I = C.run(k, opaque=('addPoints', 'buildIndex', 'knnSearch', 'getPoint'))
            w = C.where(k)
            st_ = sym(C.P.F[k]['ps'][0]['n'], 'o')
            qs = [e for e in I.events if e.kind == 'call' and e.name == 'knnSearch']
            for e in qs:
                p = point(e.args[0])
                ok = None
                if p is not None:
                    root = p[0]
                    ok = True if root == ('P', st_.a[0], 'o') or root[0] == 'P' and root[1] == st_.a[0] else None
                    if root[0] == 'P' and root[1] != st_.a[0]:
                        ok = False
                C.ob('nearest', nm + ': the point searched for is the state asked about', w, ok, clip(e.args[0], 100))
                if len(e.args) > 3:
                    want = ONE if nm == 'GetNearestNode' else sym(C.P.F[k]['ps'][1]['n'], 'i')
                    C.ob('nearest', nm + ': as many neighbours are searched for as asked', w, decide_same(e.args[3], want)[0], clip(e.args[3], 60))
            gp = [e for e in I.events if e.kind == 'call' and e.name == 'getPoint']
            for e in gp:
                found_ = any(y.op == 'app' and str(y.a[0]).startswith('out:knnSearch:1') or y.op == 'alloc' for y in subterms(e.args[0]))
                inner = not e.loops or raw('iv', e.loops) in set(subterms(e.args[0]))
                if any(y.op in ('unk', 'phi') for y in subterms(e.args[0])):
                    found_, inner = found_ or None, inner or None
                C.ob('nearest', nm + ': the points answered are those the search found', w, found_, clip(e.args[0], 100))
                C.ob('nearest', nm + ': each neighbour found is answered', w, inner, clip(e.args[0], 100))
            lk = [x for e in rets(I) for x in subterms(e.args[0]) if x.op == 'mget' or x.op == 'app' and x.a[0] == 'mget'] + \
                 [x for L in I.loops.values() for y in L.next.values() for x in subterms(y) if x.op == 'mget' or x.op == 'app' and x.a[0] == 'mget']
            for x in set(lk):
                key = x.a[-1] if x.op == 'app' else x.a[1]
                C.ob('nearest', nm + ': the node answered is the one stored for a point of the index', w, True if any('getPoint' in str(y.a[0]) for y in subterms(key) if y.op == 'app') else False if key is st_ else None, clip(key, 100))

def delegate(C):
    """the tree hands its own root to the relinking"""
    T_, N = tree_class(C), node_class(C)
    q = C.P.F[op(C, N, 'Reparent', 3)]['q']
    k = op(C, T_, 'Reparent', 2)
    I = C.run(k, opaque=(q,))
    w = C.where(k)
    ps = [sym(p['n'], 'p') for p in C.P.F[k]['ps']]
    ev = [e for e in I.events if e.kind == 'call' and e.name == 'Reparent']
    C.need(ev, 'the relinking is done elsewhere')
    for e in ev:
        C.ob('reparent', 'Tree: the node moved and its new parent are those asked for', w, e.args[0] is ps[0] and e.args[1] is ps[1])
        lv = e.lvs[2]
        own = getattr(lv, 'root', None) is not None and lv.root[0] == 'O' and lv.root[1] is this and [x[1] for x in lv.path] == ['m_rootNode']
        C.ob('reparent', 'Tree: the root that relinking may move is that of the tree', w, own if own or getattr(lv, 'root', (0,))[0] in ('L', 'T', 'P') and not [x for x in I.events if x.kind == 'store' and x.recvlv is not None and x.recvlv.root[0] == 'O'] else None, str(lv)[:100])

def run(C):
    C.assume.append('a node is not its own child and occurs once among the children of its owner (induction over the operations)')
    C.each(add_child, remove_child, replace_child, reparent, walks, tree, nearest, delegate)
