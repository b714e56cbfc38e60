"""Shared infrastructure of the rules: obligations, anchors, comparison of values, evidence."""
import random
import os, sys, json, time, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract, interp, terms
from terms import *
from interp import *

VERIF = extract.VERIF
REPO = extract.REPO

class AnchorError(Exception):
    """a public construct the property is stated about has vanished"""

_prog = {}
def prog(tag='main'):
    if tag not in _prog:
        us = extract.units() if tag == 'main' else extract.macro_units()
        data = extract.run(us, tag)
        bad = {u: d['diag'] for u, d in data.items() if d.get('diag')}
        if bad and tag == 'main':
            u = sorted(bad)[0]
            raise extract.ExtractError('%s does not parse: %s' % (u, bad[u][:1500]))
        _prog[tag] = Prog(data)
        _prog[tag].units = sorted(data)
    return _prog[tag]

def rel(f):
    f = f or '?'
    return f[6:] if f.startswith('/repo/') else f

class Ob:
    def __init__(self, rule, what, where, verdict, detail=''):
        self.rule, self.what, self.where, self.verdict, self.detail = rule, what, where, verdict, detail
    def json(self):
        return {'rule': self.rule, 'what': self.what, 'where': self.where, 'verdict': self.verdict, 'detail': self.detail[:1200]}

TOTAL, PART = 600, 150

class Late(BaseException):
    """the time set for (a part of) a rule has run out"""

def late(*a):
    raise Late()

def shared(f, *rules):
    """a part of another property's rule, keeping only the obligations of the named kinds"""
    def go(C):
        def ob(rule, what, where, ok, detail=''):
            if rule in rules:
                return type(C).ob(C, rule, what, where, ok, detail)
            return ok
        C.ob = ob
        try:
            f(C)
        finally:
            del C.ob
    go.__name__ = f.__name__
    return go

class Ctx:
    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.obs = []
        self.analysed = set()
        self.assume = []
        self.counts = {}
        self.P = prog()
    def each(self, *fs):
        """run the parts of a rule; a part that cannot follow the code is recorded as undecided, the others still count"""
        import signal, time
        outer = getattr(self, 'deadline', None)
        if outer is None:
            self.deadline = time.time() + TOTAL
            signal.signal(signal.SIGALRM, late)
        for f in fs:
            left = self.deadline - time.time()
            signal.alarm(max(1, int(left if outer is None else min(left, PART))))
            try:
                f(self)
            except Late:
                self.ob('budget', '%s: no answer within the time set for it' % f.__name__, '-', None)
                self.skipped = getattr(self, 'skipped', 0) + 1
            except (AnchorError, Undecided) as e:
                self.ob('anchor', '%s: %s' % (f.__name__, e), '-', None)
                self.skipped = getattr(self, 'skipped', 0) + 1
            except extract.ExtractError:
                raise
            except Exception as e:
                import traceback
                self.ob('internal', '%s: %s' % (f.__name__, traceback.format_exc()[-400:]), '-', None)
                self.skipped = getattr(self, 'skipped', 0) + 1
            finally:
                signal.alarm(0 if outer is None else max(1, int(self.deadline - time.time())))
    # ---------------------------------------------------------------- recording
    def ob(self, rule, what, where, ok, detail=''):
        v = 'holds' if ok is True else 'violated' if ok is False else 'undecided'
        self.obs.append(Ob(rule, what, where, v, detail))
        return ok
    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n
    # ---------------------------------------------------------------- anchors
    def need(self, c, msg):
        if not c:
            raise AnchorError(msg)
        return c
    def func(self, q, nparams=None, cls=None, has=None, many=False, body=True):
        """functions by qualified-name regexp (template arguments removed)"""
        out = []
        for k, f in self.P.F.items():
            if body and not f.get('body') and f.get('kind') != 'ctor':
                continue
            if not re.fullmatch(q, f['q']):
                continue
            if nparams is not None and len(f.get('ps', [])) != nparams:
                continue
            if cls and not re.search(cls, f.get('cls') or ''):
                continue
            if has and has not in k:
                continue
            out.append(k)
        self.need(out, 'no function %s%s' % (q, '' if nparams is None else '/%d' % nparams))
        return sorted(out) if many else sorted(out)[0]
    def where(self, key):
        f = self.P.F[key]
        return '%s:%s %s' % (rel(f.get('file')), f.get('line'), f['q'])
    def interp(self, **k):
        return Interp(self.P, **k)
    def run(self, key, opaque=(), **k):
        ik = {x: k.pop(x) for x in ('depth', 'dyn', 'nomut', 'budget', 'unroll') if x in k}
        I = Interp(self.P, opaque=opaque, **ik)
        f = self.P.F[key]
        k.setdefault('thiscls', f.get('cls'))
        S, r = I.entry(key, **k)
        I.S = S
        I.ret = I.read(S, r) if isinstance(r, LV) else r
        I.retlv = r
        I.key = key
        for x in I.inlined:
            self.analysed.add(x)
        return I
    # ---------------------------------------------------------------- comparison
    def same(self, rule, what, where, a, b, guard=(), soft=(), n=24):
        """obligation: terms a (from the code) and b (required) denote the same value under guard"""
        ok, d = decide_same(a, b, guard, soft, n)
        return self.ob(rule, what, where, ok, '' if ok else 'found %s; required %s%s' % (clip(a), clip(b), '' if not d else ' (' + d + ')'))
    def implied(self, rule, what, where, guard, f, vague=None):
        """obligation: guard implies f; violated only if some random interpretation refutes it with all atoms understood"""
        ok = decide_implied(guard, f)
        return self.ob(rule, what, where, ok, '' if ok else '%s does not follow from %s' % (clip(f), clip_guard(guard)))

def clip(t, n=300):
    s = str(t)
    return s if len(s) <= n else s[:n] + '...'
def clip_guard(g, n=500):
    return clip(' && '.join(clip(x, 160) for x in g), n)

VAGUE = ('unk', 'uninit', 'noreturn', 'void')
LOOPY = ('phi', 'hphi')

def ops_of(t):
    return {x.op for x in subterms(t)}

def decide_same(a, b, guard=(), soft=(), n=24):
    if a is b:
        return True, ''
    if a is None or b is None:
        return None, 'no value'
    oa, ob_ = ops_of(a), ops_of(b)
    r = equal(a, b, guard, n)
    if r in ('same', 'ri'):
        return True, r
    if r == 'diff':
        for o in VAGUE:
            if o in oa or o in ob_:
                return None, 'contains ' + o
        for o in LOOPY:
            if (o in oa) != (o in ob_):
                return None, 'loop-carried value'
        return False, ''
    return None, r

def decide_implied(guard, f):
    if entails(guard, f):
        return True
    lits = literals(guard)
    for x in list(lits) + [f]:
        if any(o in VAGUE for o in ops_of(x)):
            return None
    bad = 0
    ok = 0
    for s in range(400):
        r = RI(s)
        try:
            if any(not r.ev(g) for g in lits):
                continue
            ok += 1
            if not r.ev(f):
                return False
        except (TypeError, ValueError, OverflowError):
            continue
        if ok > 40:
            break
    if ok > 40:
        return True
    if find_counter(guard, f):
        return False
    return True if ok > 8 else None

def find_counter(guard, f, seeds=6, steps=160):
    """local search for an interpretation of the opaque atoms that meets every literal of the guard and refutes f"""
    lits = [x for x in literals(guard) if x is not TRUE]
    goal = [(x, True) for x in lits] + [(f, False)]
    for x, _ in goal:
        if any(o in VAGUE for o in ops_of(x)):
            return False
    for seed in range(seeds):
        rng = random.Random(seed)
        over = {}
        cur = None
        for step in range(steps):
            ri = RI(seed)
            ri.over = over
            bad = []
            try:
                for x, w in goal:
                    ri.used = {}
                    v = ri.ev(x)
                    if bool(v) is not w:
                        bad.append(x)
            except (TypeError, ValueError, OverflowError):
                break
            if not bad:
                if all(not isinstance(v, float) or v == v for v in ri.m.values()):
                    return True
                break
            if cur is not None and len(bad) > cur[0] and rng.random() > 0.08:
                over = dict(cur[1])
                bad = cur[2]
            else:
                cur = (len(bad), dict(over), bad)
            x = rng.choice(bad)
            r2 = RI(seed)
            r2.over = over
            r2.used = {}
            try:
                r2.ev(x)
            except (TypeError, ValueError, OverflowError):
                break
            ks = [(k, t) for k, t in r2.used.items() if t in ('i', 'r', 'b')]
            if not ks:
                break
            k, t = rng.choice(ks)
            over = dict(over)
            v = r2.rnd(k, t)
            if t == 'b':
                over[k] = not v
            elif t == 'i':
                over[k] = v + rng.choice((-1, 1, -1, 1, 2, -2, 5, -5, 11))
            else:
                over[k] = v + rng.choice((-1, 1, 0.5, -0.5, 2, -2, 7, -7, 0.125))
    return False

# ---------------------------------------------------------------- loops and sequences
def trips(L):
    """number of iterations of a loop whose only exit is its counting condition, as a term; else None"""
    if any(k != 'normal' for k, *_ in L.exits) or L.cond is None:
        return None
    c = L.cond
    iv = raw('iv', L.id)
    if c.op in ('pos', 'nneg'):
        d = c.a[0]
        rest = add(d, iv)
        if iv not in subterms(rest):
            return rest if c.op == 'pos' else add(rest, ONE)
    if c.op == 'not' and c.a[0].op == 'zero':
        for d in (c.a[0].a[0], neg(c.a[0].a[0])):
            rest = add(d, iv)
            if iv not in subterms(rest):
                return rest
    return None

def vdesc(I, v, depth=0):
    """a sequence value as segments: ('elem', x) one element, ('rep', L, x, n) n elements x over loop L, ('base', t), ('unk', why)"""
    if depth > 12:
        return [('unk', 'depth')]
    o = v.op
    if o == 'vec':
        return [('elem', x) for x in v.a]
    if o == 'push':
        return vdesc(I, v.a[0], depth + 1) + [('elem', v.a[1])]
    if o == 'phi':
        Lid, root, path = v.a[0]
        L = I.loops.get(Lid)
        if L is None:
            return [('unk', 'loop')]
        nxt, ini = L.next.get((root, path)), L.init.get((root, path))
        n = trips(L)
        if nxt is None or ini is None:
            return [('unk', 'loop')]
        if nxt.op == 'push' and nxt.a[0] is v:
            return vdesc(I, ini, depth + 1) + [('rep', L, nxt.a[1], n)]
        if nxt.op == 'vins' and nxt.a[0] is v and nxt.a[1] is ZERO:
            return [('front', L, nxt.a[2], n)]
        if nxt.op == 'vset' and nxt.a[0] is v and nxt.a[1] is raw('iv', Lid) and n is not None and size(ini) is n:
            return [('rep', L, nxt.a[2], n)]
        return [('unk', 'not an unconditional append')]
    return [('base', v)]

def enum(C, name):
    for k, e in C.P.E.items():
        if k == name or k.endswith('::' + name):
            return {a: int(b) for a, b in e['items']}
    raise AnchorError('enum ' + name)

def loose_iv(t):
    """does a loop counter occur other than as a number of whole turns?"""
    seen = set()
    def go(x):
        if x in seen:
            return False
        seen.add(x)
        if x.op == 'poly':
            for m, c in x.a[0]:
                ats = [a for a, e in m]
                if any(a.op == 'iv' for a in ats) and not (PI in ats and len(ats) == 2 and c.denominator == 1 and c.numerator % 2 == 0):
                    return True
                if any(go(a) for a in ats if a.op != 'iv'):
                    return True
            return False
        if x.op == 'iv':
            return True
        return any(go(y) for y in children(x))
    return go(t)

def num_same(pairs, boxes=None, n=60, guard=(), seeds=None):
    """do the pairs of real terms agree in every random interpretation satisfying guard? None if undecided"""
    if all(a is b for a, b in pairs):
        return True
    vague = any(o in VAGUE + LOOPY for a, b in pairs for o in ops_of(a) | ops_of(b)) or any(loose_iv(x) for p in pairs for x in p)
    ok = 0
    for s in range(0, 2 * n, 2):
        r = RI(s, boxes=boxes)
        try:
            if any(not r.ev(g) for g in guard):
                continue
            vs = [(r.ev(a), r.ev(b)) for a, b in pairs]
        except (TypeError, ValueError, OverflowError):
            continue
        for x, y in vs:
            if not isinstance(x, (int, float)) or not isinstance(y, (int, float)):
                if x == y:
                    ok += 1
                    continue
                return None if vague else False
            if x != x or y != y:
                continue
            if abs(x - y) > 1e-6 * max(1.0, abs(x), abs(y)):
                return None if vague else False
            ok += 1
    return True if ok > 10 else None

def setitems(I, t, cond=(), out=None, depth=0):
    """contents of a std::set value as [(conditions, key, loop or None)]; None if not understood"""
    if out is None:
        out = []
    if depth > 60:
        return None
    if t.op == 'emp':
        return out
    if t.op == 'ins':
        out.append((cond, t.a[1], None))
        return setitems(I, t.a[0], cond, out, depth + 1)
    if t.op == 'ite':
        def chain(x):
            ks = [x]
            while x.op == 'ins':
                x = x.a[0]
                ks.append(x)
            return ks
        ca, cb = chain(t.a[1]), chain(t.a[2])
        com = next((x for x in ca if x in cb), None)
        if com is not None:
            out += [(cond + (t.a[0],), x.a[1], None) for x in ca[:ca.index(com)]]
            out += [(cond + (not_(t.a[0]),), x.a[1], None) for x in cb[:cb.index(com)]]
            return setitems(I, com, cond, out, depth + 1)
        a = setitems(I, t.a[1], cond + (t.a[0],), [], depth + 1)
        b = setitems(I, t.a[2], cond + (not_(t.a[0]),), [], depth + 1)
        return None if a is None or b is None else out + a + b
    if t.op == 'phi':
        Lid, root, path = t.a[0]
        L = I.loops.get(Lid)
        if L is None:
            return None
        nx, ini = L.next.get((root, path)), L.init.get((root, path))
        if nx is None or ini is None:
            return None
        def upd(x, c):
            if x is t:
                return True
            if x.op == 'ins':
                out.append((cond + c, x.a[1], L))
                return upd(x.a[0], c)
            if x.op == 'ite':
                return upd(x.a[1], c + (x.a[0],)) and upd(x.a[2], c + (not_(x.a[0]),))
            return False
        if not upd(nx, ()):
            return None
        return setitems(I, ini, cond, out, depth + 1)
    return None

def unsat(g):
    """the conjunction g certainly cannot hold"""
    try:
        return decide_implied(g, FALSE) is True
    except Exception:
        return False
