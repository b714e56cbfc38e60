"""Hash-consed value-number terms with an arithmetic normal form (Laurent polynomials over opaque atoms)."""
from fractions import Fraction
import math, hashlib

_tab = {}

class T:
    __slots__ = ('op', 'a', 'id', '_h', '_vars', '_unk')
    def __repr__(self):
        return show(self)
    def __hash__(self):
        return self._h
    def __eq__(self, o):
        return self is o
    def __lt__(self, o):
        return self.id < o.id

def raw(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, len(_tab)
        t._h = hash(k)
        t._unk = None
        _tab[k] = t
    return t

# ---------------------------------------------------------------- constants
def const(v):
    if isinstance(v, bool):
        return raw('c', 'b', v)
    if isinstance(v, int):
        return raw('c', 'n', Fraction(v))
    if isinstance(v, Fraction):
        return raw('c', 'n', v)
    if isinstance(v, float):
        if math.isinf(v):
            return raw('c', 'inf', 1 if v > 0 else -1)
        return raw('c', 'n', Fraction(v))
    if v is None:
        return raw('c', 'null', 0)
    return raw('c', 's', v)

TRUE, FALSE, NULL = const(True), const(False), const(None)
INF, NINF = const(float('inf')), const(float('-inf'))
ZERO, ONE = const(0), const(1)
PI = raw('pi')

def realconst(v, f32=False):
    """A floating literal; recognises rational multiples of pi."""
    if isinstance(v, str):
        if v == 'inf':
            return INF
        if v == '-inf':
            return NINF
        if v == 'nan':
            return raw('nan')
        f = float(v)
    else:
        f = float(v)
    if f == 0:
        return ZERO
    if not f32:
        for d in (1, 2, 3, 4, 6, 180):
            r = f * d / math.pi
            if abs(r) < 1e4 and round(r) != 0 and abs(r - round(r)) < 1e-13 * max(1, abs(r)):
                return mul(const(Fraction(round(r), d)), PI)
        if abs(f) < 1e6 and abs(f * 180 / math.pi - round(f * 180 / math.pi)) < 1e-13 and round(f * 180 / math.pi):
            return mul(const(Fraction(round(f * 180 / math.pi), 180)), PI)
    if f32:
        return const(Fraction('%.7g' % f))
    s = '%.17g' % f
    for p in range(1, 18):
        q = '%.*g' % (p, f)
        if float(q) == f:
            s = q
            break
    return const(Fraction(s))

def isconst(t):
    return t.op == 'c'
def cval(t):
    if t.op == 'c' and t.a[0] in ('b', 'n', 's'):
        return t.a[1]
    return None
def isnum(t):
    return t.op == 'c' and t.a[0] == 'n'
def isinf(t):
    return t.op == 'c' and t.a[0] == 'inf'

# ---------------------------------------------------------------- opaque leaves and typed applications
def sym(name, ty='r'):
    return raw('sym', name, ty)
_unk = [0]
def unk(why=''):
    _unk[0] += 1
    return raw('unk', _unk[0], why)

def app(f, *args, ty='r'):
    return raw('app', f, ty, *args)

def ty(t):
    """'i' integer, 'r' real, 'b' bool, 'p' pointer, 'o' object"""
    o = t.op
    if o == 'c':
        k = t.a[0]
        if k == 'n':
            return 'i' if t.a[1].denominator == 1 else 'r'
        return {'b': 'b', 'inf': 'r', 'null': 'p', 's': 'o'}[k]
    if o in ('sym', 'app', 'phi'):
        return t.a[1]
    if o == 'fld':
        return t.a[2]
    if o == 'vget':
        return t.a[2]
    if o == 'poly':
        for m, c in t.a[0]:
            if c.denominator != 1:
                return 'r'
            for at, e in m:
                if e < 0 or ty(at) != 'i':
                    return 'r'
        return 'i'
    if o in ('trunc', 'floor', 'ceil', 'round', 'size', 'idiv', 'imod', 'iv'):
        return 'i'
    if o in ('min', 'max'):
        return 'i' if all(ty(x) == 'i' for x in t.a) else 'r'
    if o == 'ite':
        a, b = ty(t.a[1]), ty(t.a[2])
        if a == b:
            return a
        if {a, b} <= {'i', 'r'}:
            return 'r'
        return a
    if o in ('and', 'or', 'not', 'pos', 'nneg', 'zero', 'eq', 'has', 'forall', 'allpass'):
        return 'b'
    if o in ('alloc', 'addr', 'padd'):
        return 'p'
    if o in ('pi', 'inv', 'sin', 'cos', 'sqrt', 'abs', 'atan2', 'nan'):
        if o == 'abs':
            return ty(t.a[0])
        return 'r'
    return 'o'

# ---------------------------------------------------------------- polynomials
def pdict(t):
    """term -> {monomial: coeff}; None if it cannot take part in arithmetic (infinite)"""
    if t.op == 'c':
        if t.a[0] == 'n':
            return {(): t.a[1]} if t.a[1] else {}
        if t.a[0] == 'b':
            return {(): Fraction(int(t.a[1]))} if t.a[1] else {}
        return None
    if t.op == 'poly':
        return dict(t.a[0])
    return {((t, 1),): Fraction(1)}

def fromdict(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return raw('poly', tuple(sorted(d.items(), key=lambda x: (tuple((a.id, e) for a, e in x[0]), x[1]))))

def _mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].id))

def _reduce(d):
    """cos(x)^2 -> 1 - sin(x)^2, and sqrt(x)^2 -> x"""
    again = True
    while again:
        again = False
        for m, c in list(d.items()):
            for i, (a, e) in enumerate(m):
                if a.op == 'cos' and e >= 2:
                    s = raw('sin', a.a[0])
                    rest = m[:i] + (((a, e - 2),) if e > 2 else ()) + m[i + 1:]
                    del d[m]
                    for mm, k in ((rest, 1), (_mmul(rest, ((s, 2),)), -1)):
                        d[mm] = d.get(mm, 0) + c * k
                        if not d[mm]:
                            del d[mm]
                    again = True
                    break
                if a.op == 'sqrt' and e >= 2:
                    rest = m[:i] + (((a, e - 2),) if e > 2 else ()) + m[i + 1:]
                    del d[m]
                    for mm, k in pdict(a.a[0]).items():
                        q = _mmul(rest, mm)
                        d[q] = d.get(q, 0) + c * k
                        if not d[q]:
                            del d[q]
                    again = True
                    break
            if again:
                break
    return d

def add(*ts):
    for t in ts:
        if isinf(t):
            if any(isinf(u) and u is not t for u in ts):
                return raw('nan')
            return t
    if any(t.op == 'ite' for t in ts):
        r = _lift(add, ts)
        if r is not None:
            return r
    d = {}
    for t in ts:
        p = pdict(t)
        if p is None:
            return raw('app', 'badadd', 'r', *ts)
        for m, c in p.items():
            d[m] = d.get(m, 0) + c
    return fromdict(d)

def _lift(f, ts):
    """push an operator into an ite operand (small ones only)"""
    for i, t in enumerate(ts):
        if t.op == 'ite':
            c, a, b = t.a
            if isconst(a) or isconst(b) or True:
                l = list(ts); r = list(ts)
                l[i], r[i] = a, b
                # push the same condition into the other operands
                l = [_choose(x, c, True) for x in l]
                r = [_choose(x, c, False) for x in r]
                if tsize(t) > 400 or sum(1 for x in ts if x.op == 'ite') > 6:
                    return None
                return ite(c, f(*l), f(*r))
    return None

def _choose(x, c, v):
    while x.op == 'ite' and x.a[0] is c:
        x = x.a[1] if v else x.a[2]
    return x

_szc = {}
def tsize(t):
    s = _szc.get(t)
    if s is None:
        s = 1
        for x in t.a:
            if isinstance(x, T):
                s += tsize(x)
            elif t.op == 'poly':
                for m, c in x:
                    s += sum(tsize(a) for a, e in m) + 1
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, T):
                                s += tsize(z)
        _szc[t] = s
    return s

_negc = {}
def neg(t):
    r = _negc.get(t)
    if r is None:
        r = _negc[t] = _neg(t)
    return r
def _neg(t):
    return mul(const(-1), t)
def sub(a, b):
    if a is b and not isinf(a):
        return ZERO
    return add(a, neg(b))

def mul(*ts):
    for t in ts:
        if isinf(t):
            s = 1
            for u in ts:
                if isinf(u):
                    s *= u.a[1]
                elif isnum(u):
                    if u.a[1] == 0:
                        return raw('nan')
                    s *= 1 if u.a[1] > 0 else -1
                else:
                    return raw('app', 'mulinf', 'r', *ts)
            return INF if s > 0 else NINF
    if any(t.op == 'ite' for t in ts):
        r = _lift(mul, ts)
        if r is not None:
            return r
    d = {(): Fraction(1)}
    for t in ts:
        p = pdict(t)
        if p is None:
            return raw('app', 'badmul', 'r', *ts)
        nd = {}
        if len(d) * max(1, len(p)) > 4000:
            return raw('app', 'bigmul', 'r', *ts)
        for m1, c1 in d.items():
            for m2, c2 in p.items():
                m = _mmul(m1, m2)
                nd[m] = nd.get(m, 0) + c1 * c2
        d = {m: c for m, c in nd.items() if c}
    return fromdict(_reduce(d))

def inv(t):
    if isnum(t):
        if t.a[1] == 0:
            return raw('app', 'div0', 'r')
        return const(1 / t.a[1])
    if isinf(t):
        return ZERO
    if t.op == 'ite':
        return ite(t.a[0], inv(t.a[1]), inv(t.a[2]))
    p = pdict(t)
    if p is not None and len(p) == 1:
        (m, c), = p.items()
        return fromdict({tuple((a, -e) for a, e in m): 1 / c})
    # normalise leading coefficient
    lead = sorted(p.items(), key=lambda x: tuple((a.id, e) for a, e in x[0]))[-1][1]
    q = fromdict({m: c / lead for m, c in p.items()})
    return fromdict({((raw('inv', q), 1),): 1 / lead})

def div(a, b):
    if a is b and not isconst(a):
        return ONE
    return mul(a, inv(b))

def idiv(a, b):
    if isnum(a) and isnum(b) and b.a[1]:
        return const(int(a.a[1] / b.a[1]))
    if b is ONE:
        return a
    return raw('idiv', a, b)
def imod(a, b):
    if isnum(a) and isnum(b) and b.a[1]:
        q = int(a.a[1] / b.a[1])
        return const(a.a[1] - q * b.a[1])
    return raw('imod', a, b)

def fn1(name, x):
    if name in ('sin', 'cos'):
        if x is ZERO:
            return ZERO if name == 'sin' else ONE
        if x.op == 'ite':
            return ite(x.a[0], fn1(name, x.a[1]), fn1(name, x.a[2]))
        # normalise sign and whole turns
        p = pdict(x)
        if p is None:
            return raw(name, x)
        pim = ((PI, 1),)
        k = p.get(pim)
        if k is not None and k.denominator == 1 and k:
            p = dict(p); del p[pim]
            y = fromdict(p)
            s = fn1(name, y)
            return neg(s) if int(k) % 2 else s
        if k is not None and k.denominator == 2:
            p = dict(p); del p[pim]
            y = fromdict(p)
            n = int(k - Fraction(1, 2)) % 2
            # x = y + pi/2 + n*pi
            r = fn1('cos', y) if name == 'sin' else neg(fn1('sin', y))
            return neg(r) if n else r
        items = sorted(p.items(), key=lambda z: tuple((a.id, e) for a, e in z[0]))
        if items and items[0][1] < 0:
            y = neg(x)
            return neg(raw('sin', y)) if name == 'sin' else raw('cos', y)
        return raw(name, x)
    if name == 'sqrt':
        if isnum(x) and x.a[1] >= 0:
            n, d = x.a[1].numerator, x.a[1].denominator
            if math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
                return const(Fraction(math.isqrt(n), math.isqrt(d)))
        if isinf(x):
            return x
        if x.op == 'ite':
            return ite(x.a[0], fn1(name, x.a[1]), fn1(name, x.a[2]))
        return raw('sqrt', x)
    if name == 'abs':
        if isnum(x):
            return const(abs(x.a[1]))
        if isinf(x):
            return INF
        if positive(x):
            return x
        if positive(neg(x)):
            return neg(x)
        p = pdict(x)
        items = sorted(p.items(), key=lambda z: tuple((a.id, e) for a, e in z[0]))
        if items[0][1] < 0:
            x = neg(x)
        return raw('abs', x)
    if name in ('floor', 'ceil', 'round', 'trunc'):
        if isnum(x):
            v = x.a[1]
            if name == 'floor':
                return const(math.floor(v))
            if name == 'ceil':
                return const(math.ceil(v))
            if name == 'trunc':
                return const(math.trunc(v))
            return const(math.floor(abs(v) + Fraction(1, 2)) * (1 if v >= 0 else -1))
        if ty(x) == 'i':
            return x
        if x.op == 'poly' and all(all(a.op == 'pi' for a, e in m) for m, c in x.a[0]):
            v = sum(float(c) * math.pi ** sum(e for a, e in m) for m, c in x.a[0])
            if abs(v) < 1e9 and abs(v * 2 - round(v * 2)) > 1e-6:
                return fn1(name, const(Fraction(v)))
        if x.op == 'ite':
            return ite(x.a[0], fn1(name, x.a[1]), fn1(name, x.a[2]))
        return raw(name, x)
    return app(name, x)

# ---------------------------------------------------------------- booleans
_fin = {}
def finite(t):
    """built from symbols declared finite ('fin:', 'pos:' names) by total arithmetic"""
    r = _fin.get(t)
    if r is None:
        if t.op == 'sym':
            r = str(t.a[0])[:4] in ('fin:', 'pos:')
        elif t.op == 'c':
            r = t.a[0] == 'n'
        elif t.op == 'poly':
            r = all(finite(a) for m, c in t.a[0] for a, e in m)
        elif t.op in ('abs', 'sqrt', 'floor', 'ceil', 'round', 'trunc', 'inv', 'ite', 'min', 'max'):
            r = all(finite(x) for x in t.a if isinstance(x, T) and ty(x) != 'b')
        else:
            r = t.op in ('pi', 'sin', 'cos', 'iv')
        _fin[t] = r
    return r
_posm = {}
def positive(t):
    """certainly > 0"""
    r = _posm.get(t)
    if r is None:
        if t.op == 'sym':
            r = str(t.a[0])[:4] == 'pos:'
        elif t.op == 'c':
            r = t.a[0] == 'n' and t.a[1] > 0
        elif t.op == 'poly':
            r = all(c > 0 and all(positive(a) or e % 2 == 0 and False for a, e in m) for m, c in t.a[0])
            if not r and all(all(a.op == 'pi' for a, e in m) for m, c in t.a[0]):
                r = sum(float(c) * math.pi ** sum(e for a, e in m) for m, c in t.a[0]) > 1e-10     # a number: rationals and powers of pi
        elif t.op == 'inv':
            r = positive(t.a[0])
        else:
            r = t.op == 'pi'
        _posm[t] = r
    return r

def _norm_cmp(d):
    """scale so that the first monomial coefficient is +-1"""
    p = pdict(d)
    items = sorted(((m, c) for m, c in p.items() if m != ()), key=lambda z: tuple((a.id, e) for a, e in z[0]))
    if not items:
        return d
    k = abs(items[0][1])
    if k == 1:
        return d
    return fromdict({m: c / k for m, c in p.items()})

def pos(d):          # d > 0
    if d.op == 'size':
        return not_(zero(d))
    if isnum(d):
        return const(d.a[1] > 0)
    if isinf(d):
        return const(d.a[1] > 0)
    if d.op == 'ite':
        return ite(d.a[0], pos(d.a[1]), pos(d.a[2]))
    if positive(d):
        return TRUE
    if positive(neg(d)):
        return FALSE
    d = _norm_cmp(d)
    return raw('pos', d)
def nneg(d):
    if isnum(d):
        return const(d.a[1] >= 0)
    if isinf(d):
        return const(d.a[1] > 0)
    if d.op == 'ite':
        return ite(d.a[0], nneg(d.a[1]), nneg(d.a[2]))
    if positive(d):
        return TRUE
    if positive(neg(d)):
        return FALSE
    if ty(d) == 'i':
        return pos(add(d, ONE))
    return raw('nneg', _norm_cmp(d))

def lt(a, b):
    for x, y, f in ((a, b, lambda u, v: lt(u, v)), (b, a, lambda u, v: lt(v, u))):
        if x.op == 'ite':
            return ite(x.a[0], f(x.a[1], _choose(y, x.a[0], True)), f(x.a[2], _choose(y, x.a[0], False)))
    if isinf(a) or isinf(b):
        if a is b:
            return FALSE
        if isinf(a) and isinf(b):
            return const(a.a[1] < b.a[1])
        if a is NINF and isnum(b) or b is INF and isnum(a):
            return TRUE
        if a is INF or b is NINF:
            return FALSE
        # x < +inf  <=> x != inf ; -inf < x <=> x != -inf
        return not_(eq(a, b))
    return pos(sub(b, a))
def le(a, b):
    for x, y, f in ((a, b, lambda u, v: le(u, v)), (b, a, lambda u, v: le(v, u))):
        if x.op == 'ite':
            return ite(x.a[0], f(x.a[1], _choose(y, x.a[0], True)), f(x.a[2], _choose(y, x.a[0], False)))
    if isinf(a) or isinf(b):
        return not_(lt(b, a))
    return nneg(sub(b, a))

def zero(d):
    if isnum(d):
        return const(d.a[1] == 0)
    if d.op == 'ite':
        return ite(d.a[0], zero(d.a[1]), zero(d.a[2]))
    if positive(d) or positive(neg(d)):
        return FALSE
    p = pdict(d)
    items = sorted(((m, c) for m, c in p.items() if m != ()), key=lambda z: tuple((a.id, e) for a, e in z[0]))
    k = items[0][1]
    return raw('zero', fromdict({m: c / k for m, c in p.items()}))

NUMERIC = ('i', 'r')
def eq(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite':
            return ite(x.a[0], eq(x.a[1], _choose(y, x.a[0], True)), eq(x.a[2], _choose(y, x.a[0], False)))
    if a.op == 'fld' and b.op == 'fld' and a.a[1] == b.a[1] == 'm_data' and a.a[0].op == 'fld' and b.a[0].op == 'fld' and a.a[0].a[1] != b.a[0].a[1]:
        return FALSE        # storage of two different member grids (a grid cannot be copied into a second owner)
    ta, tb = ty(a), ty(b)
    if ta == 'b' and tb == 'b':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return not_(b)
        if b is FALSE: return not_(a)
        return raw('eq', *sorted((a, b), key=lambda t: t.id))
    if isinf(a) or isinf(b):
        if isinf(a) and isinf(b):
            return const(a is b)
        if isnum(a) or isnum(b):
            return FALSE
        o = b if isinf(a) else a
        if finite(o):
            return FALSE
        if o.op == 'poly' or o.op in ('trunc', 'floor', 'ceil', 'round', 'iv', 'size'):
            return raw('eq', *sorted((a, b), key=lambda t: t.id))
        return raw('eq', *sorted((a, b), key=lambda t: t.id))
    if ta in NUMERIC and tb in NUMERIC:
        return zero(sub(a, b))
    if a.op == 'st' and b.op == 'st':
        fa, fb = dict(a.a[2]), dict(b.a[2])
        if set(fa) == set(fb) and a.a[1] is None and b.a[1] is None:
            return and_(*[eq(fa[k], fb[k]) for k in sorted(fa)])
    if isconst(a) and isconst(b):
        return const(a is b)
    if a is NULL or b is NULL:
        o = b if a is NULL else a
        if o.op in ('alloc', 'addr') or o.op == 'sym' and o.a[0] == 'this':
            return FALSE
    elif a.op == 'vget' or b.op == 'vget':
        if below(a, b) or below(b, a):
            return FALSE
        if a.op == 'vget' and b.op == 'vget' and a.a[0] is b.a[0] and kids(a.a[0]) is not None:
            return eq(a.a[1], b.a[1])
    if fresh_vs_old(a, b) or fresh_vs_old(b, a):
        return FALSE
    if a.op == 'addr' or b.op == 'addr':
        r = _addreq(a, b)
        if r is not None:
            return r
    return raw('eq', *sorted((a, b), key=lambda t: t.id))

def kids(v):
    """the node whose children (held by unique pointers) v are, as they were on entry"""
    if v.op != 'fld' or v.a[1] != 'm_children':
        return None
    o = v.a[0]
    return o.a[0] if o.op == 'obj' else o.a[1] if o.op == 'vget' and o.a[0].op in ('hphi', 'H0') else None

def below(a, b):
    """a lies in the subtree owned by b: ownership has no cycles"""
    n = 0
    while a.op == 'vget' and n < 6:
        a = kids(a.a[0])
        if a is None:
            return False
        if a is b:
            return True
        n += 1
    return False

def _addreq(a, b):
    """comparison of addresses of (parts of) variables and objects"""
    if a.op == 'addr' and b.op == 'addr':
        ra, rb = a.a[0], b.a[0]
        la, lb = ra[0] in 'LTPG', rb[0] in 'LTPG'
        if la and lb and ra != rb:
            return FALSE
        if la != lb:
            return FALSE
        if ra == rb:
            pa, pb = a.a[1], b.a[1]
            if len(pa) == len(pb):
                conds = []
                for x, y in zip(pa, pb):
                    if x[0] == 'f' or y[0] == 'f':
                        if x[:2] != y[:2]:
                            return FALSE
                    else:
                        conds.append(eq(x[1], y[1]))
                return and_(*conds)
        return None
    x, y = (a, b) if a.op == 'addr' else (b, a)
    if x.a[0][0] in 'LTPG' and y.op in ('sym', 'obj', 'fld', 'alloc'):
        return FALSE
    if y.op == 'alloc':
        return FALSE if x.a[0][0] != 'O' or x.a[0][1] is not y else None
    return None

def fresh_vs_old(a, b):
    """a is a fresh allocation and b a value that existed before it, or another allocation"""
    if a.op != 'alloc':
        return False
    if b.op == 'alloc':
        return a is not b
    if b.op in ('addr', 'padd'):
        return False
    for x in subterms(b):
        if x is a or x.op in ('unk', 'noreturn'):
            return False
        if x.op in ('phi', 'hphi', 'allpass', 'iv'):
            L = x.a[0][0] if x.op == 'phi' else x.a[0]
            if a.a[1][:len(L)] != L:
                return False
    return True

_co = {}
def contains_op(t, ops):
    k = (t, ops)
    r = _co.get(k)
    if r is None:
        r = t.op in ops or any(contains_op(x, ops) for x in children(t))
        _co[k] = r
    return r

_notc = {}
def not_(t):
    r = _notc.get(t)
    if r is None:
        r = _notc[t] = _not(t)
    return r
def _not(t):
    if t.op == 'c':
        return const(not t.a[1])
    if t.op == 'not':
        return t.a[0]
    if t.op == 'and':
        return or_(*[not_(x) for x in t.a])
    if t.op == 'or':
        return and_(*[not_(x) for x in t.a])
    if t.op == 'pos':
        return nneg(neg(t.a[0]))
    if t.op == 'nneg':
        return pos(neg(t.a[0]))
    if t.op == 'ite':
        return ite(t.a[0], not_(t.a[1]), not_(t.a[2]))
    return raw('not', t)

def _flat(op, ts):
    out = []
    for t in ts:
        if t.op == op:
            out.extend(t.a)
        else:
            out.append(t)
    return out

def and_(*ts):
    s = set()
    for t in _flat('and', ts):
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        s.add(t)
    for t in s:
        if not_(t) in s:
            return FALSE
    # unit propagation into disjunctions: (a or b) with not a known
    for t in list(s):
        if t.op == 'or':
            nt = or_(*[x for x in t.a if not_(x) not in s])
            if any(x in s for x in t.a):
                s.discard(t)
            elif nt is not t:
                s.discard(t)
                return and_(nt, *s)
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return raw('and', *sorted(s, key=lambda t: t.id))

def or_(*ts):
    s = set()
    for t in _flat('or', ts):
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        s.add(t)
    for t in s:
        if not_(t) in s:
            return TRUE
    for t in list(s):
        if t.op == 'and':
            if any(x in s for x in t.a):
                s.discard(t)
                continue
            nt = and_(*[x for x in t.a if not_(x) not in s])
            if nt is not t:
                s.discard(t)
                return or_(nt, *s)
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    # factor common conjuncts
    lst = list(s)
    if all(x.op == 'and' for x in lst):
        com = set(lst[0].a)
        for x in lst[1:]:
            com &= set(x.a)
        if com:
            return and_(or_(*[and_(*[y for y in x.a if y not in com]) for x in lst]), *com)
    return raw('or', *sorted(s, key=lambda t: t.id))

def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if c.op == 'nneg':           # canonical polarity: use pos of the negation
        return ite(pos(neg(c.a[0])), b, a)
    if c.op == 'ite':
        pass
    a = _choose(a, c, True)
    b = _choose(b, c, False)
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a is TRUE:
        return or_(c, b)
    if a is FALSE:
        return and_(not_(c), b)
    if b is TRUE:
        return or_(not_(c), a)
    if b is FALSE:
        return and_(c, a)
    if a.op == 'st' and b.op == 'st' and a.a[0] == b.a[0] and a.a[1] is b.a[1]:
        fa, fb = dict(a.a[2]), dict(b.a[2])
        f = {}
        for k in set(fa) | set(fb):
            x = fa.get(k); y = fb.get(k)
            if x is None:
                x = fld(a, k, ty(y))
            if y is None:
                y = fld(b, k, ty(x))
            f[k] = ite(c, x, y)
        return st(a.a[0], a.a[1], f)
    if a.op == 'vec' and b.op == 'vec' and len(a.a) == len(b.a):
        return raw('vec', *[ite(c, x, y) for x, y in zip(a.a, b.a)])
    if a.op in ('vit', 'rit') and a.op == b.op and a.a[0] is b.a[0]:
        return raw(a.op, a.a[0], ite(c, a.a[1], b.a[1]))
    if a.op == 'st' and a.a[1] is b:
        return st(a.a[0], b, {k: ite(c, v, fld(b, k, ty(v))) for k, v in a.a[2]})
    if b.op == 'st' and b.a[1] is a:
        return st(b.a[0], a, {k: ite(c, fld(a, k, ty(v)), v) for k, v in b.a[2]})
    return raw('ite', c, a, b)

# ---------------------------------------------------------------- structures
def st(cls, base, fields):
    f = tuple(sorted(fields.items()))
    if base is not None:
        f2 = tuple((k, v) for k, v in f if not (v.op == 'fld' and v.a[0] is base and v.a[1] == k))
        if not f2:
            return base
        f = f2
    return raw('st', cls, base, f)

_fldmemo = {}

def fld(t, name, tyy='o'):
    if t.op == 'st':
        for k, v in t.a[2]:
            if k == name:
                return v
        if t.a[1] is not None:
            return fld(t.a[1], name, tyy)
        return raw('fld', raw('uninit', t.a[0]), name, tyy)
    if t.op == 'ite':
        k = (t, name, tyy)
        r = _fldmemo.get(k)
        if r is None:
            r = _fldmemo[k] = ite(t.a[0], fld(t.a[1], name, tyy), fld(t.a[2], name, tyy))
        return r
    if t.op == 'vget' and t.a[0].op == 'hphi':
        # object in a loop-modified heap class: fields the loop never writes keep their value from before the loop
        L, cls, base, F1, F2 = t.a[0].a
        p = t.a[1]
        if name not in F1 and '*all' not in F1 and not (p.op == 'alloc' and p.a[1][:len(L)] == L):
            import interp
            return fld(interp.hget(base, p), name, tyy)
    return raw('fld', t, name, tyy)

def setfld(t, cls, name, v):
    if t.op == 'st':
        f = dict(t.a[2])
        f[name] = v
        return st(t.a[0], t.a[1], f)
    if t.op == 'ite':
        return ite(t.a[0], setfld(t.a[1], cls, name, v), setfld(t.a[2], cls, name, v))
    return st(cls, t, {name: v})

def tup(*vs):
    return st('tuple', None, {str(i): v for i, v in enumerate(vs)})

def vget(v, i, tyy='o'):
    if v.op == 'vec' and isnum(i):
        k = int(i.a[1])
        if 0 <= k < len(v.a):
            return v.a[k]
        return raw('oob', v, i)
    if v.op == 'vset':
        e = eq(v.a[1], i)
        if e is TRUE:
            return v.a[2]
        if e is FALSE:
            return vget(v.a[0], i, tyy)
        return ite(e, v.a[2], vget(v.a[0], i, tyy))
    if v.op == 'push':
        n = size(v.a[0])
        e = eq(n, i)
        if e is TRUE:
            return v.a[1]
        if e is FALSE:
            return vget(v.a[0], i, tyy)
    if v.op == 'fill':
        return v.a[1]
    if v.op == 'vpop':
        return vget(v.a[0], i, tyy)
    if v.op == 'ite':
        return ite(v.a[0], vget(v.a[1], i, tyy), vget(v.a[2], i, tyy))
    if v.op == 'vec' and i.op == 'ite':
        return ite(i.a[0], vget(v, i.a[1], tyy), vget(v, i.a[2], tyy))
    return raw('vget', v, i, tyy)

def vset(v, i, x):
    if v.op == 'vec' and isnum(i) and 0 <= int(i.a[1]) < len(v.a):
        l = list(v.a)
        l[int(i.a[1])] = x
        return raw('vec', *l)
    if v.op == 'vset' and v.a[1] is i:
        return vset(v.a[0], i, x)
    if x.op == 'vget' and x.a[0] is v and x.a[1] is i:
        return v
    return raw('vset', v, i, x)

def size(v):
    if v.op == 'vec':
        return const(len(v.a))
    if v.op == 'push':
        return add(size(v.a[0]), ONE)
    if v.op == 'vset':
        return size(v.a[0])
    if v.op == 'fill':
        return v.a[0]
    if v.op == 'ite':
        return ite(v.a[0], size(v.a[1]), size(v.a[2]))
    if v.op == 'vpop' or v.op == 'verase':
        return sub(size(v.a[0]), ONE)
    if v.op == 'vins':
        return add(size(v.a[0]), ONE)
    if v.op == 'resize':
        return v.a[1]
    if v.op == 'emp':
        return ZERO
    return raw('size', v)

def push(v, x):
    if v.op == 'vec':
        return raw('vec', *(v.a + (x,)))
    return raw('push', v, x)

# ---------------------------------------------------------------- traversal
LEAF = ('phi', 'hphi', 'site', 'allpass', 'alloc', 'iv', 'H0')
def children(t):
    if t.op in LEAF:
        return
    if t.op == 'poly':
        for m, c in t.a[0]:
            for at, e in m:
                yield at
        return
    if t.op == 'st':
        if t.a[1] is not None:
            yield t.a[1]
        for k, v in t.a[2]:
            yield v
        return
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _tc(x)

def _tc(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _tc(y)

def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))

def has_unk(t):
    if t._unk is None:
        t._unk = t.op in ('unk',) or any(has_unk(x) for x in children(t))
    return t._unk

def rebuild(t, f):
    """rebuild t with f applied to children, through the smart constructors"""
    o = t.op
    if o in ('c', 'sym', 'pi', 'unk', 'nan') or o in LEAF:
        return t
    if o == 'poly':
        s = ZERO
        ch = False
        terms = []
        for m, c in t.a[0]:
            p = const(c)
            for at, e in m:
                x = f(at)
                if x is not at:
                    ch = True
                for _ in range(abs(e)):
                    p = mul(p, x if e > 0 else inv(x))
            terms.append(p)
        return add(*terms) if ch else t
    if o == 'st':
        b = f(t.a[1]) if t.a[1] is not None else None
        fs = {k: f(v) for k, v in t.a[2]}
        if b is t.a[1] and all(fs[k] is v for k, v in t.a[2]):
            return t
        return st(t.a[0], b, fs)
    def go(x):
        if isinstance(x, T):
            return f(x)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    a = tuple(go(x) for x in t.a)
    if all(x is y or (not isinstance(x, T) and x == y) for x, y in zip(a, t.a)):
        return t
    return build(o, a)

def build(o, a):
    if o == 'ite': return ite(*a)
    if o == 'and': return and_(*a)
    if o == 'or': return or_(*a)
    if o == 'not': return not_(a[0])
    if o == 'pos': return pos(a[0])
    if o == 'nneg': return nneg(a[0])
    if o == 'zero': return zero(a[0])
    if o == 'eq': return eq(*a)
    if o == 'fld': return fld(*a)
    if o == 'vget': return vget(*a)
    if o == 'vset': return vset(*a)
    if o == 'push': return push(*a)
    if o == 'size': return size(*a)
    if o in ('sin', 'cos', 'sqrt', 'abs', 'floor', 'ceil', 'round', 'trunc'): return fn1(o, a[0])
    if o == 'inv': return inv(a[0])
    if o == 'idiv': return idiv(*a)
    if o == 'imod': return imod(*a)
    if o in ('min', 'max'): return minmax(o, *a)
    if o == 'has':
        import interp
        return interp.mhas(*a)
    if o == 'app' and a[0] == 'keq':
        import interp
        return interp.keyeq(a[2], a[3])
    if o == 'obj' and a[0].op == 'ite':
        return ite(a[0].a[0], build('obj', (a[0].a[1],)), build('obj', (a[0].a[2],)))
    return raw(o, *a)

def subst(t, m, memo=None):
    memo = {} if memo is None else memo
    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)

def minmax(op, *ts):
    s = []
    for t in ts:
        if t.op == op:
            s.extend(t.a)
        else:
            s.append(t)
    nums = [t for t in s if isconst(t)]
    rest = sorted({t for t in s if not isconst(t)}, key=lambda t: t.id)
    k = None
    if nums:
        key = lambda t: float('inf') * t.a[1] if isinf(t) else float(t.a[1])
        k = (min if op == 'min' else max)(nums, key=key)
        if (k is INF and op == 'max') or (k is NINF and op == 'min'):
            return k
        if (k is INF and op == 'min') or (k is NINF and op == 'max'):
            k = None
    if not rest:
        return k if k is not None else (INF if op == 'min' else NINF)
    if k is not None:
        rest = rest + [k]
    if len(rest) == 1:
        return rest[0]
    for t in rest:
        if t.op == 'ite' and len(rest) <= 4:
            o = [x for x in rest if x is not t]
            return ite(t.a[0], minmax(op, t.a[1], *[_choose(x, t.a[0], True) for x in o]), minmax(op, t.a[2], *[_choose(x, t.a[0], False) for x in o]))
    return raw(op, *rest)

# ---------------------------------------------------------------- facts
def literals(guard):
    out = []
    for g in guard:
        if g.op == 'and':
            out.extend(literals(g.a))
        elif g.op == 'ite' and False:
            pass
        else:
            out.append(g)
    return out

def simp_under(t, guard, memo=None):
    """simplify t using the literals of the guard"""
    lits = literals(guard)
    known = {}
    for l in lits:
        known[l] = TRUE
        known[not_(l)] = FALSE
        if l.op == 'eq' and l.a[0] is NULL or l.op == 'eq' and l.a[1] is NULL:
            o = l.a[1] if l.a[0] is NULL else l.a[0]
        if l.op == 'pos':     # d > 0 also settles d >= 0 and -d > 0, d == 0
            known[nneg(l.a[0])] = TRUE
            known[not_(nneg(l.a[0]))] = FALSE
            known[zero(l.a[0])] = FALSE
    memo = {}
    def go(x):
        if x in known:
            return known[x]
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            if r is not x and r in known:
                r = known[r]
            memo[x] = r
        return r
    return go(t)

def entails(guard, f, depth=3):
    """must-fact check: guard (conjunction) implies f; syntactic plus small linear reasoning"""
    if f is TRUE:
        return True
    lits = literals(guard)
    if FALSE in lits:
        return True
    S = set(lits)
    for l in lits:
        if not_(l) in S:
            return True
    if f.op == 'and':
        return all(entails(guard, x, depth) for x in f.a)
    if f in S:
        return True
    f2 = simp_under(f, guard)
    if f2 is TRUE:
        return True
    if f2.op == 'and' and f2 is not f:
        return all(entails(guard, x, depth) for x in f2.a)
    if f2.op == 'or':
        if any(entails(guard, x, 0) for x in f2.a):
            return True
    if f2.op == 'ite' and depth > 0:
        c, a, b = f2.a
        if entails(tuple(lits) + (c,), a, depth - 1) and entails(tuple(lits) + (not_(c),), b, depth - 1):
            return True
    for g in (f, f2):
        if g.op in ('pos', 'nneg') and _linear(lits, g):
            return True
        if g.op == 'zero' and _linear(lits, nneg(g.a[0])) and _linear(lits, nneg(neg(g.a[0]))):
            return True
        if g.op == 'not' and g.a[0].op == 'zero':
            d = g.a[0].a[0]
            if _linear(lits, pos(d)) or _linear(lits, pos(neg(d))):
                return True
    if depth > 0:
        # split on a disjunctive literal
        for l in lits:
            if l.op in ('or', 'ite'):
                rest = tuple(x for x in lits if x is not l)
                if l.op == 'or':
                    alts = [(x,) for x in l.a]
                else:
                    alts = [(l.a[0], l.a[1]), (not_(l.a[0]), l.a[2])]
                alts2 = []
                for al in alts:
                    al = tuple(simp_under(x, rest) for x in al)
                    if any(x is FALSE for x in al):
                        continue
                    alts2.append(al)
                if all(entails(rest + al, f, depth - 1) for al in alts2):
                    return True
        # split on ite inside f
        for x in subterms(f2):
            if x.op == 'ite':
                c = x.a[0]
                if entails(tuple(lits) + (c,), f, depth - 1) and entails(tuple(lits) + (not_(c),), f, depth - 1):
                    return True
                break
    return False

def _ineqs(lits):
    out = []
    for l in lits:
        if l.op == 'pos':
            out.append((l.a[0], True))
        elif l.op == 'nneg':
            out.append((l.a[0], False))
        elif l.op == 'zero':
            out.append((l.a[0], False)); out.append((neg(l.a[0]), False))
    return out

def _linear(lits, f):
    """f (pos/nneg) follows from a sum of at most three known inequalities plus a constant"""
    d = f.a[0]
    strict = f.op == 'pos'
    if contains_op(d, ('ite',)):
        return False
    ineq = list(_ineqs(lits))
    # facts about particular operators
    for x in subterms(d):
        if x.op in ('size', 'iv'):
            ineq.append((x, False))
        elif x.op == 'abs':
            ineq.append((x, False)); ineq.append((sub(x, x.a[0]), False)); ineq.append((add(x, x.a[0]), False))
        elif x.op == 'sqrt':
            ineq.append((x, False))
        elif x.op == 'min':
            for y in x.a: ineq.append((sub(y, x), False))
        elif x.op == 'max':
            for y in x.a: ineq.append((sub(x, y), False))
    isint = ty(d) == 'i'
    def norm(x, s):
        if s and ty(x) == 'i':
            return sub(x, ONE), False
        return x, s
    goal = d
    gstrict = strict
    ineq = [norm(x, s) for x, s in ineq if not contains_op(x, ('ite',))]
    if isint and strict:
        goal = sub(d, ONE); strict = False
    atoms = {a for m, c in (pdict(goal) or {}).items() for a, e in m}
    # close relevance
    rel = []
    frontier = set(atoms)
    for _ in range(3):
        for q in ineq:
            qa = {a for m, c in (pdict(q[0]) or {}).items() for a, e in m}
            if q not in rel and qa & frontier:
                rel.append(q)
                frontier |= qa
    rel = rel[:40]
    rels = [(pdict(x), st_) for x, st_ in rel if pdict(x) is not None]
    def good(m, c):
        return c > 0 and all(positive(a_) for a_, e in m)
    def rec(r, st_, k):
        bad = None
        st2 = st_
        for m, c in r.items():
            if m == ():
                continue
            if good(m, c):
                st2 = True
            elif bad is None:
                bad = (m, c)
        if bad is None:
            v = r.get((), 0)
            return v >= 0 if not strict else (v > 0 or (st2 and v >= 0))
        if k == 0:
            return False
        m, c = bad
        for x, s_ in rels:
            y = x.get(m)
            if y is None or (y > 0) != (c > 0):
                continue
            for sc in ((1,) if c == y else (1, c / y)):
                r2 = dict(r)
                for mm, cc in x.items():
                    z = r2.get(mm, 0) - sc * cc
                    if z:
                        r2[mm] = z
                    else:
                        r2.pop(mm, None)
                if rec(r2, st_ or s_, k - 1):
                    return True
        return False
    g0 = pdict(goal)
    if g0 is None or any(x is None for x, _ in rels):
        return False
    return rec(g0, False, 3)

# ---------------------------------------------------------------- random interpretation
class RI:
    """Random interpretation of terms: opaque atoms get hashed pseudo-random values (Gulwani/Necula style)."""
    def __init__(self, seed, fixed=None, boxes=None):
        self.seed = seed
        self.m = dict(fixed or {})
        self.boxes = boxes or {}
        self.over = {}
        self.used = None
    def rnd(self, key, tyy):
        if self.used is not None:
            self.used[key] = tyy
        if key in self.over:
            return self.over[key]
        h = int.from_bytes(hashlib.sha256(repr((self.seed, key)).encode()).digest()[:8], 'big')
        u = h / 2.0 ** 64
        if tyy == 'b':
            return u < 0.5
        if tyy == 'i':
            return int(u * 7) - 1
        if tyy == 'p':
            return ('ptr', h % 1000003)
        if tyy == 'o':
            return ('obj', h)
        if self.seed % 2:             # coarse values, so that equalities and borders are hit
            return float(int(u * 6) - 2)
        return round(u * 8 - 3.5, 6)
    def key(self, v):
        if isinstance(v, float):
            return 'f%.6g' % (v + 0.0)
        if isinstance(v, bool):
            return 'b%d' % v
        if isinstance(v, int):
            return 'f%.6g' % float(v)
        return v
    def ev(self, t):
        r = self.m.get(t)
        if r is not None or t in self.m:
            return r
        r = self._ev(t)
        self.m[t] = r
        return r
    def _ev(self, t):
        o, a = t.op, t.a
        if o == 'c':
            k = a[0]
            if k == 'n':
                return int(a[1]) if a[1].denominator == 1 else float(a[1])
            if k == 'inf':
                return math.inf * a[1]
            if k == 'null':
                return ('null',)
            return a[1]
        if o == 'pi':
            return math.pi
        if o == 'sym' and t not in self.boxes and str(a[0])[:4] == 'pos:':
            v = self.rnd((o,) + a, ty(t))
            return v if ty(t) == 'i' and v > 0 else abs(v) + (0.25 if ty(t) == 'r' else 1)
        if o == 'poly':
            s = 0
            for m, c in a[0]:
                p = float(c) if c.denominator != 1 else int(c)
                for at, e in m:
                    v = self.ev(at)
                    if not isinstance(v, (int, float)):
                        return self.rnd(('bad', t.id), 'r')
                    try:
                        p = p * (v ** e if e > 0 else 1.0 / (v ** -e))
                    except (ZeroDivisionError, OverflowError):
                        return math.nan
                s += p
            return s
        if o == 'inv':
            v = self.ev(a[0])
            return 1.0 / v if v else math.nan
        if o in ('sin', 'cos'):
            v = self.ev(a[0])
            try:
                return getattr(math, o)(v)
            except Exception:
                return math.nan
        if o == 'sqrt':
            v = self.ev(a[0])
            return math.sqrt(v) if v >= 0 else math.nan
        if o == 'abs':
            return abs(self.ev(a[0]))
        if o in ('floor', 'ceil', 'trunc', 'round'):
            v = self.ev(a[0])
            if v != v or v in (math.inf, -math.inf):
                return v
            if o == 'round':
                return int(math.floor(abs(v) + 0.5)) * (1 if v >= 0 else -1)
            return int(getattr(math, o)(v))
        if o in ('min', 'max'):
            return (min if o == 'min' else max)([self.ev(x) for x in a])
        if o == 'idiv':
            x, y = self.ev(a[0]), self.ev(a[1])
            return int(x / y) if y else 0
        if o == 'imod':
            x, y = self.ev(a[0]), self.ev(a[1])
            return int(math.fmod(x, y)) if y else 0
        if o == 'pos':
            return self.ev(a[0]) > 1e-9
        if o == 'nneg':
            return self.ev(a[0]) >= -1e-9
        if o == 'zero':
            return abs(self.ev(a[0])) <= 1e-9
        if o == 'eq':
            return self.key(self.ev(a[0])) == self.key(self.ev(a[1]))
        if o == 'not':
            return not self.ev(a[0])
        if o == 'and':
            return all(self.ev(x) for x in a)
        if o == 'or':
            return any(self.ev(x) for x in a)
        if o == 'ite':
            return self.ev(a[1]) if self.ev(a[0]) else self.ev(a[2])
        if o == 'app' and a[0] in ('tan', 'atan', 'acos', 'asin', 'exp', 'log', 'atan2', 'fmod', 'pow', 'hypot') :
            try:
                return getattr(math, a[0])(*[self.ev(x) for x in a[2:]])
            except Exception:
                return math.nan
        if o == 'st':
            return ('st', tuple((k, self.key(self.ev(v))) for k, v in a[2]), self.key(self.ev(a[1])) if a[1] is not None else None)
        # opaque application: hash of the evaluated arguments
        def k(x):
            if isinstance(x, T):
                return self.key(self.ev(x))
            if isinstance(x, tuple):
                return tuple(k(y) for y in x)
            return x
        if t in self.boxes:
            lo, hi = self.boxes[t]
            h = int.from_bytes(hashlib.sha256(repr((self.seed, show(t))).encode()).digest()[:8], 'big') / 2.0 ** 64
            return lo + (hi - lo) * h
        return self.rnd((o,) + tuple(k(x) for x in a), ty(t))

def close(x, y):
    if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(x, bool) and not isinstance(y, bool):
        if x != x or y != y:
            return True            # outside the domain of definition: says nothing
        if x == y:
            return True
        return abs(x - y) <= 1e-5 * max(1.0, abs(x), abs(y))
    if isinstance(x, tuple) and isinstance(y, tuple):
        return x == y
    return x == y

def equal(a, b, guard=(), n=24, boxes=None):
    """'same' (normal forms agree), 'ri' (no random interpretation separates them), or 'diff' """
    if a is b:
        return 'same'
    if guard:
        a2, b2 = simp_under(a, guard), simp_under(b, guard)
        if a2 is b2:
            return 'same'
        a, b = a2, b2
    ok = 0
    gl = literals(guard)
    if contains_op(a, ('pos', 'nneg', 'zero', 'eq', 'ite')) or contains_op(b, ('pos', 'nneg', 'zero', 'eq', 'ite')):
        n = n * 6
    for s in range(n * (12 if gl else 1)):
        r = RI(s, boxes=boxes)
        try:
            if any(not r.ev(g) for g in gl):
                continue
            va, vb = r.ev(a), r.ev(b)
        except (TypeError, ValueError, OverflowError):
            continue
        if not close(va, vb):
            return 'diff'
        ok += 1
        if ok >= n:
            break
    return 'ri' if ok else 'undecided'

# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 12:
        return '..'
    o, a = t.op, t.a
    if o == 'c':
        k = a[0]
        return {'inf': 'inf' if a[1] and a[1] != -1 else '-inf', 'null': 'null'}.get(k) or str(a[1])
    if o == 'sym':
        return a[0]
    if o == 'poly':
        out = []
        for m, c in a[0]:
            s = '*'.join(show(at, d + 1) + ('^%d' % e if e != 1 else '') for at, e in m)
            out.append((str(c) + ('*' if s else '') if c != 1 or not s else '') + s)
        return '(' + ' + '.join(out) + ')'
    if o == 'fld':
        return show(a[0], d + 1) + '.' + a[1]
    if o == 'vget':
        return show(a[0], d + 1) + '[' + show(a[1], d + 1) + ']'
    if o == 'app':
        return str(a[0]) + '(' + ', '.join(show(x, d + 1) for x in a[2:]) + ')'
    if o == 'pos':
        return '(' + show(a[0], d + 1) + ' > 0)'
    if o == 'nneg':
        return '(' + show(a[0], d + 1) + ' >= 0)'
    if o == 'zero':
        return '(' + show(a[0], d + 1) + ' == 0)'
    if o == 'eq':
        return '(' + show(a[0], d + 1) + ' == ' + show(a[1], d + 1) + ')'
    if o == 'not':
        return '!' + show(a[0], d + 1)
    if o == 'and':
        return '(' + ' && '.join(show(x, d + 1) for x in a) + ')'
    if o == 'or':
        return '(' + ' || '.join(show(x, d + 1) for x in a) + ')'
    if o == 'ite':
        return 'ite(' + ', '.join(show(x, d + 1) for x in a) + ')'
    if o == 'st':
        return (a[0].split('::')[-1][:24] if isinstance(a[0], str) else str(a[0])) + '{' + (show(a[1], d + 1) + ' with ' if a[1] is not None else '') + ', '.join(k + '=' + show(v, d + 1) for k, v in a[2]) + '}'
    return o + '(' + ', '.join(show(x, d + 1) if isinstance(x, T) else str(x) for x in a) + ')'
