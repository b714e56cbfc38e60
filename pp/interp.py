"""Abstract interpreter over the dumped syntax trees: gated value numbering with joins at every merge point,
one generic iteration per loop, a class-partitioned heap, inlining of repository functions.
It enumerates no paths and executes nothing; every value is a hash-consed term of terms.py."""
import sys
from terms import *
import terms as TM
sys.setrecursionlimit(20000)

class Undecided(Exception):
    pass

class Prog:
    """The merged program: functions, records, types, enums."""
    def __init__(self, data):
        self.F, self.R, self.T, self.G, self.E = {}, {}, {}, {}, {}
        for u, d in data.items():
            for k, f in d['funcs'].items():
                if k not in self.F or (f.get('body') and not self.F[k].get('body')):
                    self.F[k] = f
            for k, r in d['recs'].items():
                o = self.R.get(k)
                if o is None or len(r.get('methods', [])) > len(o.get('methods', [])):
                    self.R[k] = r
            self.T.update(d['types'])
            self.G.update(d.get('globals') or {})
            self.E.update(d.get('enums') or {})
        self.bases, self.derived = {}, {}
        for k, r in self.R.items():
            bs = []
            for b in r.get('bases', []):
                b = b if isinstance(b, str) else (b.get('rec') or b.get('t'))
                bs.append(self.reckey(b) or b)
            self.bases[k] = bs
            for b in bs:
                self.derived.setdefault(b, set()).add(k)
        self._root = {}

    # ---- types
    def t(self, s):
        return self.T.get(s) or {'k': 'other'}
    def strip(self, s):
        """remove references"""
        d = self.t(s)
        while d['k'] in ('ref', 'rref'):
            s = d['to']
            d = self.t(s)
        return s
    def isref(self, s):
        return self.t(s)['k'] in ('ref', 'rref')
    def reckey(self, s):
        if s in self.R:
            return s
        d = self.t(s)
        while d['k'] in ('ref', 'rref', 'ptr') and False:
            d = self.t(d['to'])
        if d['k'] == 'rec':
            return d.get('rec')
        return None
    def tq(self, s):
        d = self.t(self.strip(s))
        return d.get('q') or ''
    def issmart(self, s):
        return self.tq(s) in ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::weak_ptr')
    def pointee(self, s):
        d = self.t(self.strip(s))
        if d['k'] == 'ptr' or d['k'] == 'arr':
            return d['to']
        if d['k'] == 'rec' and d.get('ta'):
            return d['ta'][0]
        return None
    def tc(self, s):
        if s is None:
            return 'o'
        s = self.strip(s)
        d = self.t(s)
        k = d['k']
        if k == 'rec' and self.issmart(s):
            return 'p'
        return {'int': 'i', 'enum': 'i', 'real': 'r', 'bool': 'b', 'ptr': 'p', 'fnty': 'p'}.get(k, 'o')
    def root(self, rec):
        """topmost base class: the partition of the heap a record lives in"""
        r = self._root.get(rec)
        if r is None:
            r = rec
            seen = set()
            while r not in seen and self.bases.get(r):
                seen.add(r)
                nxt = [b for b in self.bases[r] if b in self.R]
                if not nxt:
                    break
                r = nxt[0]
            self._root[rec] = r
        return r
    def hkey(self, s):
        """heap class of an object of type s"""
        s = self.strip(s)
        d = self.t(s)
        if d['k'] == 'rec':
            return self.root(d.get('rec') or s)
        if s in self.R:
            return self.root(s)
        return s.replace('const ', '')
    def subclasses(self, rec):
        out, st_ = set(), [rec]
        while st_:
            x = st_.pop()
            if x in out:
                continue
            out.add(x)
            st_.extend(self.derived.get(x, ()))
        return out
    def supers(self, rec):
        out, st_ = [], [rec]
        while st_:
            x = st_.pop(0)
            if x in out:
                continue
            out.append(x)
            st_.extend(self.bases.get(x, ()))
        return out
    def fields(self, rec):
        """all fields including inherited, base first"""
        out = []
        for b in self.bases.get(rec, ()):
            out.extend(self.fields(b))
        r = self.R.get(rec)
        if r:
            out.extend(r.get('fields', []))
        return out
    def find(self, *subs, cls=None, name=None, q=None):
        out = []
        for k, f in self.F.items():
            if cls is not None and f.get('cls') != cls and f.get('clsq') != cls:
                continue
            if name is not None and f['n'] != name:
                continue
            if q is not None and f['q'] != q:
                continue
            if all(x in k for x in subs):
                out.append(k)
        return out
    def methods(self, rec, name):
        r = self.R.get(rec)
        return [m for m in (r or {}).get('methods', []) if m['n'] == name]
    def resolve_virtual(self, fkey, dyn):
        """the override of method fkey in the dynamic class dyn (searching upwards)"""
        f = self.F.get(fkey)
        sig = fkey[fkey.rindex('::'):] if '::' in fkey and False else None
        name = None
        for c in self.supers(dyn):
            for m in self.R.get(c, {}).get('methods', []):
                if m['key'] == fkey or fkey in self.over_closure(m):
                    return m['key']
        return None
    def over_closure(self, m):
        out = set()
        st_ = list(m.get('over') or [])
        while st_:
            x = st_.pop()
            if x in out:
                continue
            out.add(x)
            mm = self.methodrec(x)
            if mm:
                st_.extend(mm.get('over') or [])
        return out
    def methodrec(self, key):
        if not hasattr(self, '_mr'):
            self._mr = {}
            for c, r in self.R.items():
                for m in r.get('methods', []):
                    if m['key'] not in self._mr or m.get('impl'):
                        self._mr[m['key']] = dict(m, cls=c)
        return self._mr.get(key)
    def overriders(self, fkey):
        if not hasattr(self, '_ov'):
            self._ov = {}
            for k in list(self.R):
                for m in self.R[k].get('methods', []):
                    for x in self.over_closure(m):
                        self._ov.setdefault(x, set()).add(m['key'])
        return self._ov.get(fkey, set())

class LV:
    __slots__ = ('root', 'path', 't')
    def __init__(self, root, path=(), t=None):
        self.root, self.path, self.t = root, path, t
    def f(self, name, tc, t):
        return LV(self.root, self.path + (('f', name, tc),), t)
    def i(self, idx, tc, t):
        return LV(self.root, self.path + (('i', idx, tc),), t)
    def k(self, key, tc, t):
        return LV(self.root, self.path + (('k', key, tc),), t)
    def same(self, o):
        return isinstance(o, LV) and self.root == o.root and self.path == o.path
    def __repr__(self):
        return 'LV%r%r' % (self.root, self.path)

class State:
    __slots__ = ('mem', 'H', 'guard')
    def __init__(self, mem=None, H=None, guard=()):
        self.mem, self.H, self.guard = mem or {}, H or {}, guard
    def fork(self, *lits):
        s = State(dict(self.mem), dict(self.H), self.guard)
        for l in lits:
            s.assume(l)
        return s
    def assume(self, l):
        if l is not TRUE:
            if l.op == 'and':
                self.guard = self.guard + tuple(x for x in l.a if x not in self.guard)
            elif l not in self.guard:
                self.guard = self.guard + (l,)
    def set(self, o):
        self.mem, self.H, self.guard = o.mem, o.H, o.guard
    def infeasible(self):
        return FALSE in self.guard

class Event:
    __slots__ = ('kind', 'name', 'fn', 'recv', 'args', 'lvs', 'guard', 'loops', 'file', 'line', 'stack', 'S', 'res', 'n', 'extra', 'recvlv', 'inl', 'seq')
    def __init__(self, **k):
        for x in self.__slots__:
            setattr(self, x, k.get(x))
    def where(self):
        return '%s:%s' % (self.file, self.line)
    def __repr__(self):
        return '<%s %s @%s:%s>' % (self.kind, self.name, (self.file or '').split('/')[-1], self.line)

class Frame:
    def __init__(self, id, fn, key, parent, thisp=None, thiscls=None):
        self.id, self.fn, self.key, self.parent = id, fn, key, parent
        self.refs, self.returns = {}, []
        self.thisp, self.thiscls = thisp, thiscls
        self.depth = 0 if parent is None else parent.depth + 1
        self.breaks, self.conts = [], []
        self.rt = fn.get('rt') if fn else None
        self.lamcaps = {}

NOMUT = {'IsStateValid', 'IsPathValid', 'ValidateBounds', 'GetHeuristicValue', 'IsOccupied', 'Connect', 'SampleUniform',
         'SampleGaussian', 'GetNeighborStates', 'GetDistanceToNearestObstacle', 'GetNearestObstacleCell', 'GetDistanceToNearestVoronoiEdge',
         'GetNearestVoronoiEdgeCell', 'GetPathCost', 'GetGridCellsPosition', 'GetVerticesPosition', 'SampleUniformBatch'}
FRESH = {'SampleUniform', 'SampleGaussian', 'Connect', 'GetNearestNode', 'GetNearestNodes', 'knnSearch'}

class Loop:
    def __init__(self, id):
        self.id = id
        self.init, self.next = {}, {}     # loc -> term
        self.phi = {}                     # loc -> phi term
        self.cond = None
        self.headguard = ()
        self.exits = []                   # (kind, guard, state)
        self.backguard = None
        self.ind = {}
        self.node = None
        self.file = self.line = None
        self.range = None
        self.head = self.back = None

class Interp:
    def __init__(self, prog, opaque=(), inline_only=None, depth=14, dyn=None, mutates=(), nomut=(), noinline_virtual=False, budget=400000, unroll=64):
        self.p = prog
        self.opaque = set(opaque)
        self.maxdepth = depth
        self.events = []
        self.quiet = 0
        self.frames = {}
        self.uids = {}
        self.wlog = []
        self.loops = {}
        self.ctx = ()                     # current loop context
        self.settled = {}
        self.unr = []                     # iteration numbers of the loops being unrolled
        self.lams = {}
        self.dyn = dict(dyn or {})        # pointer term -> dynamic class
        self.nomut = NOMUT | set(nomut)
        self.unrollmax = unroll
        self.notes = []
        self.steps = 0
        self.budget = budget
        self.stack = []
        self.inlined = set()
        self.opaqued = set()
        self.assumed = []
        self.seq = 0
        self.ltype = {}

    # ------------------------------------------------------------------ identifiers
    def uid(self, node):
        i = node.get('_u')
        if i is None:
            i = node['_u'] = len(self.uids) + 1
            self.uids[i] = node
        return i
    def frameid(self, parent, node):
        k = (parent.id if parent else 0, id(node) if node is not None else 0)
        r = self.frames.get(k)
        if r is None:
            r = self.frames[k] = len(self.frames) + 1
        return r
    def site(self, F, node, what=''):
        """identifies one execution point within the current loop iteration"""
        return raw('site', '%s%d.%d' % (what, F.id, self.nodeid(F, node)), self.ctx)
    def nodeid(self, F, node):
        k = ('n', F.id, id(node), tuple(self.unr))
        r = self.frames.get(k)
        if r is None:
            r = self.frames[k] = len(self.frames) + 1
        return r

    # ------------------------------------------------------------------ memory
    def tc(self, t):
        return self.p.tc(t)
    def hread(self, H, p):
        return hget(H, p)
    def base(self, S, root):
        k = root[0]
        if k == 'V':
            return root[1]
        if k == 'O':
            H = S.H.get(root[2])
            if H is None:
                H = raw('H0', root[2])
            return hget(H, root[1])
        v = S.mem.get(root)
        if v is None:
            if k in ('P', 'G'):
                v = sym(root[1], root[2] if len(root) > 2 else 'o')
            else:
                v = raw('uninit', str(root))
        return v
    def read(self, S, lv):
        if not isinstance(lv, LV):
            return lv
        if lv.root[0] == 'I':
            return ite(lv.root[1], self.read(S, lv.root[2].ext(lv.path) if False else ext(lv.root[2], lv.path, lv.t)), self.read(S, ext(lv.root[3], lv.path, lv.t)))
        v = self.base(S, lv.root)
        if lv.root[0] in ('P', 'G') and not lv.path and lv.root not in S.mem:
            return v
        return getpath(v, lv.path)
    def write(self, S, lv, val, node=None, F=None):
        if lv.root[0] == 'I':
            c, a, b = lv.root[1:]
            a, b = ext(a, lv.path, lv.t), ext(b, lv.path, lv.t)
            va, vb = self.read(S, a), self.read(S, b)
            self.write(S, a, ite(c, val, va), node, F)
            self.write(S, b, ite(c, self.read(S, b), val), node, F)
            return
        if lv.root[0] == 'V' or lv.root[0] == 'O' and lv.root[1] is NULL:
            return
        for w in self.wlog:
            w.append((lv.root, lv.path))
        v = self.base(S, lv.root)
        nv = setpath(v, lv.path, val)
        if lv.root[0] == 'O':
            cls = lv.root[2]
            S.H[cls] = hset(S.H.get(cls) or raw('H0', cls), lv.root[1], nv)
        else:
            S.mem[lv.root] = nv
    def addr(self, lv):
        """pointer term for an lvalue"""
        if lv.root[0] == 'I':
            return ite(lv.root[1], self.addr(ext(lv.root[2], lv.path, lv.t)), self.addr(ext(lv.root[3], lv.path, lv.t)))
        if lv.root[0] == 'O' and (not lv.path or len(lv.path) == 1 and lv.path[0][0] == 'f' and lv.path[0][1] == '*'):
            return lv.root[1]
        if lv.root[0] == 'O' and len(lv.path) == 1 and lv.path[0][0] == 'i' and lv.root[2].startswith('arr:'):
            return padd(lv.root[1], lv.path[0][1])
        return raw('addr', lv.root, lv.path, lv.t or '')
    def addrc(self, lv):
        """address of a container, always in explicit form"""
        if lv.root[0] == 'I':
            return self.addr(lv)
        return raw('addr', lv.root, lv.path, '')
    def deref(self, p, t):
        """the object a pointer term points to; t: pointee type"""
        if isinstance(p, LV):
            return p
        if p.op == 'addr':
            return LV(p.a[0], p.a[1], t or p.a[2])
        if p.op == 'ite':
            return LV(('I', p.a[0], self.deref(p.a[1], t), self.deref(p.a[2], t)), (), t)
        if p.op == 'padd':
            b = self.deref(p.a[0], t)
            return LV(('O', p.a[0], 'arr:' + self.p.hkey(t)), (('i', p.a[1], self.tc(t)),), t)
        tc = self.tc(t) if t else 'o'
        return LV(('O', p, self.p.hkey(t) if t else '?'), (('f', '*', tc),) if tc != 'o' else (), t)

    # ------------------------------------------------------------------ merging
    def merge2(self, a, b):
        """join of two alternative states; returns (state, condition that a is the real one)"""
        ga, gb = a.guard, b.guard
        n = 0
        while n < len(ga) and n < len(gb) and ga[n] is gb[n]:
            n += 1
        ra, rb = ga[n:], gb[n:]
        if ra and rb and not_(ra[0]) is rb[0]:
            c = ra[0]
        elif not ra and rb:
            c = not_(and_(*rb))
        elif not rb and ra:
            c = and_(*ra)
        else:
            c = and_(*ra)
            if c.op != 'c' and len(ra) > 1 and len(rb) == 1 and not_(and_(*ra)) is rb[0]:
                pass
        s = State(guard=ga[:n])
        if ra and rb:
            d = or_(and_(*ra), and_(*rb))
            s.assume(d)
        if a.mem is b.mem:
            s.mem = a.mem
        else:
            for k in a.mem.keys() | b.mem.keys():
                x, y = a.mem.get(k), b.mem.get(k)
                if x is y:
                    s.mem[k] = x
                elif x is None or y is None:
                    if k[0] in ('P', 'G'):
                        d = sym(k[1], k[2] if len(k) > 2 else 'o')
                        s.mem[k] = ite(c, x if x is not None else d, y if y is not None else d)
                    else:
                        s.mem[k] = x if x is not None else y
                else:
                    s.mem[k] = ite(c, x, y)
        for k in a.H.keys() | b.H.keys():
            x = a.H.get(k) or raw('H0', k)
            y = b.H.get(k) or raw('H0', k)
            s.H[k] = x if x is y else hmerge(c, x, y)
        return s, c
    def merge(self, items):
        """items: [(State, value or None)], in program order"""
        items = [(s, v) for s, v in items if s is not None and not s.infeasible()]
        if not items:
            return None, None
        acc, val = items[-1]
        for s, v in reversed(items[:-1]):
            acc, c = self.merge2(s, acc)
            if v is not None and val is not None:
                val = self.mergeval(c, v, val, s)
            elif v is not None:
                val = v
        return acc, val
    def mergeval(self, c, a, b, S=None):
        if isinstance(a, LV) or isinstance(b, LV):
            if isinstance(a, LV) and isinstance(b, LV):
                if a.same(b):
                    return a
                return LV(('I', c, a, b), (), a.t)
            a = a if isinstance(a, LV) else LV(('V', a))
            b = b if isinstance(b, LV) else LV(('V', b))
            return LV(('I', c, a, b), (), a.t)
        return ite(c, a, b)

    # ------------------------------------------------------------------ events
    def event(self, kind, name, S, F, node, **k):
        if self.quiet:
            return None
        self.seq += 1
        e = Event(kind=kind, name=name, guard=S.guard, loops=self.ctx, file=(F.fn.get('file') if F and F.fn else None),
                  line=node.get('l') if node else None, stack=tuple(self.stack), S=S.fork(), n=node, seq=self.seq, **k)
        self.events.append(e)
        return e

    # ------------------------------------------------------------------ entry points
    def entry(self, key, this=None, thiscls=None, args=None, S=None, guard=()):
        """analyse function key with symbolic arguments; returns (state, value)"""
        fn = self.p.F[key]
        if not fn.get('body') and fn.get('kind') != 'ctor':
            raise Undecided('no body for ' + key)
        S = S or State()
        for g in guard:
            S.assume(g)
        vals = []
        args = args or {}
        for i, q in enumerate(fn.get('ps', [])):
            t = q['t']
            if q['n'] in args or i in args:
                v = args.get(q['n'], args.get(i))
            elif self.p.isref(t):
                st_ = self.p.strip(t)
                v = LV(('P', q['n'] or 'arg%d' % i, self.tc(st_)), (), st_)
            else:
                v = sym(q['n'] or 'arg%d' % i, self.tc(t))
            vals.append(v)
        thisp = None
        if fn.get('cls') and not fn.get('st'):
            thisp = this if this is not None else sym('this', 'p')
            if thiscls:
                self.dyn.setdefault(thisp, thiscls)
        r = self.inline(S, None, key, fn, thisp, vals, {'l': fn.get('line')}, thiscls or fn.get('cls'))
        return S, r

    # ------------------------------------------------------------------ calls
    def inline(self, S, F, key, fn, thisp, vals, node, dyncls=None):
        """vals: LV or Term per parameter. Returns value (LV when the function returns a reference). S is updated in place;
        on functions that never return S gets the guard FALSE."""
        self.inlined.add(key)
        F2 = Frame(self.frameid(F, node), fn, key, F, thisp, dyncls)
        self.stack.append((key, node.get('l')))
        try:
            for q, v in zip(fn.get('ps', []), vals):
                if self.p.isref(q['t']):
                    if not isinstance(v, LV):
                        root = ('L', F2.id, q['id'])
                        S.mem[root] = v
                        v = LV(root, (), self.p.strip(q['t']))
                    F2.refs[q['id']] = v
                else:
                    S.mem[('L', F2.id, q['id'])] = self.read(S, v)
                    self.ltype[('L', F2.id, q['id'])] = self.tc(q['t'])
            body = fn.get('body')
            if fn.get('kind') == 'ctor':
                self.ctor_inits(S, F2, fn)
            out = S.fork()
            end = self.ex(body, out, F2) if body else out
            rets = list(F2.returns)
            if end is not None:
                rets.append((end, None))
            st_, val = self.merge(rets)
            if st_ is None:
                S.guard = S.guard + (FALSE,)
                return raw('noreturn')
            # locals of the callee die
            st_.mem = {k: v for k, v in st_.mem.items() if not (k[0] in ('L', 'T') and k[1] == F2.id) or self.keep(k, val)}
            S.set(st_)
            return val if val is not None else raw('void')
        finally:
            self.stack.pop()
    def keep(self, k, val):
        return True

    def ctor_inits(self, S, F, fn):
        this = self.deref(F.thisp, fn.get('cls'))
        inits = fn.get('inits') or []
        if any('deleg' in i for i in inits):
            for i in inits:
                self.init_obj(S, F, this, i['e'])
            return
        seen = {i['f'] for i in inits if 'f' in i}
        r = self.p.R.get(fn.get('cls')) or {}
        for i in inits:
            if 'base' in i:
                self.init_obj(S, F, this, i['e'])
        done = {i['f']: i for i in inits if 'f' in i}
        for fl in r.get('fields', []):
            i = done.get(fl['n'])
            lv = this.f(fl['n'], self.tc(fl['t']), fl['t'])
            if i is not None and i.get('e') is not None:
                self.init_var(S, F, lv, i['e'], fl['t'])
            elif fl.get('init') is not None:
                self.init_var(S, F, lv, fl['init'], fl['t'])
            else:
                dv = self.default_value(S, F, fl['t'])
                if dv is not None:
                    self.write(S, lv, dv)
    def default_value(self, S, F, t):
        """value of a default-initialised object of type t (None: indeterminate)"""
        q = self.p.tq(t)
        d = self.p.t(self.p.strip(t))
        if q in ('std::vector',):
            return raw('vec')
        if q in ('std::set', 'std::unordered_set', 'std::unordered_map', 'std::map', 'std::multiset', 'std::priority_queue'):
            return raw('emp')
        if self.p.issmart(t):
            return NULL
        if q == 'std::array':
            n = d.get('ta', [None, None])[1]
            try:
                n = int(str(n))
            except (TypeError, ValueError):
                return None
            e = self.default_value(S, F, d['ta'][0])
            return raw('vec', *[e if e is not None else raw('uninit', '%s#%d' % (t, i)) for i in range(n)])
        if d['k'] == 'arr' and d.get('n') is not None and int(d['n']) <= 64:
            e = self.default_value(S, F, d['to'])
            return raw('vec', *[e if e is not None else raw('uninit', '%s#%d' % (t, i)) for i in range(int(d['n']))])
        return None
    def init_obj(self, S, F, lv, e):
        """run a constructor expression e on the existing object lv"""
        if e is None:
            return
        while e['k'] in ('cast',) and e.get('e'):
            e = e['e']
        if e['k'] == 'ctor':
            self.construct(S, F, lv, e)
        else:
            self.write(S, lv, self.ev(e, S, F))
    def init_var(self, S, F, lv, e, t):
        k = e
        if k['k'] == 'ctor' and self.is_repo_ctor(k):
            self.construct(S, F, lv, k)
            return
        self.write(S, lv, self.ev(e, S, F))
    def is_repo_ctor(self, e):
        f = self.p.F.get(e.get('fn'))
        return f is not None and not e.get('copy') and not e.get('move')
    def construct(self, S, F, lv, e):
        """constructor call e building the object lv"""
        t = e['t']
        if e.get('copy') or e.get('move'):
            src = e['a'][0]
            v = self.ev(src, S, F)
            if e.get('move') and self.p.issmart(t):
                self.nullmoved(S, F, src)
            self.write(S, lv, v)
            return
        f = self.p.F.get(e.get('fn'))
        if f is not None and (f.get('body') or f.get('inits')):
            vals = self.args(S, F, e['a'], f.get('ps', []))
            if F is not None and F.depth < self.maxdepth:
                rec = f.get('cls')
                if rec and lv.root[0] in ('L', 'T') and not lv.path:
                    S.mem[lv.root] = raw('st', self.p.reckey(self.p.strip(t)) or t, None, ())
                elif rec and lv.path:
                    pass
                ev = self.event('ctor', f['n'], S, F, e, fn=e.get('fn'), args=[self.read(S, v) for v in vals], recvlv=lv)
                self.inline(S, F, e['fn'], f, self.addr(lv), vals, e, rec)
                return
        self.write(S, lv, self.ctor_value(S, F, e))

    def args(self, S, F, exprs, ps):
        out = []
        for i, e in enumerate(exprs):
            if i < len(ps):
                t = ps[i]['t']
                if self.p.isref(t):
                    out.append(self.lvref(e, S, F))
                    continue
                out.append(self.ev(e, S, F))
            else:
                out.append(self.ev(e, S, F))
        return out
    def lvref(self, e, S, F):
        """lvalue for binding a reference to e (materialising temporaries)"""
        lv = self.lv(e, S, F, soft=True)
        if lv is not None:
            return lv
        v = self.ev(e, S, F)
        if isinstance(v, LV):
            return v
        root = ('T', F.id, self.nodeid(F, e))
        S.mem[root] = v
        return LV(root, (), self.p.strip(e.get('t') or ''))

    # ------------------------------------------------------------------ lvalues
    def lv(self, e, S, F, soft=False):
        k = e['k']
        if k == 'var':
            r = F.refs.get(e['id'])
            if r is not None:
                return r
            if e.get('glob') or e.get('static'):
                g = e.get('glob') or 'static:' + e['n']
                return LV(('G', g, self.tc(e['t'])), (), self.p.strip(e['t']))
            t = self.p.strip(e['t'])
            return LV(('L', F.id, e['id']), (), t)
        if k == 'mem':
            b = e['b']
            if e.get('arrow'):
                o = self.deref(self.ev(b, S, F), e['cls'])
            else:
                o = self.lv(b, S, F, soft=True)
                if o is None:
                    o = LV(('V', self.ev(b, S, F)), (), e['cls'])
            r = o.f(e['n'], self.tc(e['t']), self.p.strip(e['t']))
            if self.p.isref(e['t']):
                return self.deref(self.read(S, LV(r.root, r.path[:-1] + (('f', e['n'], 'p'),), e['t'])), self.p.strip(e['t']))
            return r
        if k == 'un' and e['op'] == '*':
            return self.deref(self.ev(e['e'], S, F), self.p.pointee(e['e'].get('t') or '') or e.get('t'))
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            self.ev(e, S, F)
            return self.lv(e['e'], S, F)
        if k == 'idx':
            return self.index(e, S, F)
        if k == 'assign':
            self.ev(e, S, F)
            return self.lv(e['a'], S, F)
        if k == 'cast' and e.get('ck') in ('UncheckedDerivedToBase', 'DerivedToBase', 'NoOp', 'BaseToDerived', 'LValueBitCast') and not self.p.t(e['t'])['k'] == 'ptr':
            o = self.lv(e['e'], S, F, soft)
            return o
        if k == 'decay':
            return self.lv(e['e'], S, F, soft)
        if k == 'this':
            return None
        if k == 'call':
            if e.get('lv') or e['n'] in ('operator*', 'operator->', 'operator[]', 'back', 'front', 'forward', 'move', 'x', 'y', 'get') or self.tc(e.get('t')) == 'o':
                v = self.call(e, S, F)
                if isinstance(v, LV):
                    return v
                return LV(('V', v), (), self.p.strip(e.get('t') or ''))
            return None
        if k == 'cond':
            t = self.p.t(e['t'])
            c = self.cond(e['c'], S, F)
            a = self.lv(e['a'], S, F, soft=True)
            b = self.lv(e['b'], S, F, soft=True)
            if a is not None and b is not None and a.root[0] != 'V' and b.root[0] != 'V':
                return a if c is TRUE else b if c is FALSE else LV(('I', c, a, b), (), a.t)
            return None
        if soft:
            return None
        v = self.ev(e, S, F)
        if isinstance(v, LV):
            return v
        root = ('T', F.id, self.nodeid(F, e))
        S.mem[root] = v
        return LV(root, (), self.p.strip(e.get('t') or ''))
    def index(self, e, S, F):
        i = self.ev(e['b'], S, F)
        a = e['a']
        et = self.p.strip(e['t'])
        if a['k'] == 'decay':
            o = self.lv(a, S, F, soft=True)
            if o is None:
                o = LV(('V', self.ev(a['e'], S, F)))
            r = o.i(i, self.tc(et), et)
        else:
            p = self.ev(a, S, F)
            if self.p.t(self.p.strip(e['b'].get('t') or ''))['k'] == 'ptr' and False:
                p, i = i, p
            r = self.elem(p, i, et)
        self.event('index', '[]', S, F, e, args=[i], recvlv=r)
        return r
    def elem(self, p, i, et):
        if p.op == 'padd':
            return self.elem(p.a[0], add(p.a[1], i), et)
        if p.op == 'ite':
            return LV(('I', p.a[0], self.elem(p.a[1], i, et), self.elem(p.a[2], i, et)), (), et)
        if p.op == 'addr' and p.a[1] and p.a[1][-1][0] == 'i':
            path = p.a[1]
            return LV(p.a[0], path[:-1] + (('i', add(path[-1][1], i), self.tc(et)),), et)
        return LV(('O', p, 'arr:' + self.p.hkey(et)), (('i', i, self.tc(et)),), et)

    # ------------------------------------------------------------------ rvalues
    def ev(self, e, S, F):
        self.steps += 1
        if self.steps > self.budget:
            raise Undecided('analysis budget exhausted')
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            return unk(e['k'])
        v = m(e, S, F)
        if isinstance(v, LV):
            return self.read(S, v)
        return v
    def cond(self, e, S, F):
        v = self.ev(e, S, F)
        return self.tobool(v)
    def tobool(self, v):
        t = ty(v)
        if t == 'b':
            return v
        if t == 'p':
            return not_(eq(v, NULL))
        if t in ('i', 'r'):
            if v.op == 'ite':
                return ite(v.a[0], self.tobool(v.a[1]), self.tobool(v.a[2]))
            return not_(zero(v))
        if v.op == 'unk':
            return v
        return raw('app', 'bool', 'b', v)
    def e_const(self, e, S, F):
        v = e['v']
        tk = self.p.t(e.get('t'))['k']
        if tk == 'bool':
            return const(bool(v))
        if isinstance(v, str) and not e.get('flt') and v not in ('inf', '-inf', 'nan'):
            return const(int(v))
        if isinstance(v, str):
            return realconst(v, e.get('f32', False))
        return const(int(v))
    def e_var(self, e, S, F):
        if e.get('glob') and e['id'] not in F.refs:
            g = self.p.G.get(e['glob'])
            root = ('G', e['glob'], self.tc(e['t']))
            if root not in S.mem and g and g.get('const') and g.get('init') is not None:
                S.mem[root] = self.ev(g['init'], S, F)
        return self.lv(e, S, F)
    def e_fnref(self, e, S, F):
        return raw('fnref', e.get('fn'))
    def e_mem(self, e, S, F):
        return self.lv(e, S, F)
    def e_memfn(self, e, S, F):
        return unk('memfn')
    def e_fieldref(self, e, S, F):
        return raw('fieldref', e.get('cls'), e['n'])
    def e_this(self, e, S, F):
        return F.thisp if F.thisp is not None else unk('this')
    def e_null(self, e, S, F):
        return NULL
    def e_str(self, e, S, F):
        return const(e.get('v', '') or '')
    def e_zero(self, e, S, F):
        tc = self.tc(e['t'])
        if tc == 'b':
            return FALSE
        if tc in ('i', 'r'):
            return ZERO
        if tc == 'p':
            return NULL
        d = self.default_value(S, F, e['t'])
        return d if d is not None else raw('st', self.p.reckey(self.p.strip(e['t'])) or e['t'], None, ())
    def e_throw(self, e, S, F):
        if e.get('e'):
            self.ev(e['e'], S, F)
        self.event('throw', 'throw', S, F, e)
        S.guard = S.guard + (FALSE,)
        return raw('noreturn')
    def e_decay(self, e, S, F):
        if e['e']['k'] == 'str':
            return self.ev(e['e'], S, F)
        lv = self.lv(e['e'], S, F, soft=True)
        if lv is None:
            return self.ev(e['e'], S, F)
        return raw('addr', lv.root, lv.path + (('i', ZERO, 'o'),), '')
    def e_arrcopy(self, e, S, F):
        return self.ev(e['e'], S, F)
    def e_unk(self, e, S, F):
        for c in e.get('ch') or []:
            self.ev(c, S, F)
        if e.get('what') == 'CXXNoexceptExpr' or e.get('what') == 'UnaryExprOrTypeTraitExpr':
            return raw('app', 'sizeof', 'i')
        return unk(e.get('what', ''))
    def e_cast(self, e, S, F):
        ck = e['ck']
        v = self.ev(e['e'], S, F)
        if ck in ('int2real', 'NoOp', 'FloatingCast', 'LValueToRValue', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'BitCast', 'dynamic',
                  'ConstructorConversion', 'ToVoid', 'LValueBitCast', 'IntegralToPointer', 'PointerToIntegral'):
            return v
        if ck == 'IntegralCast':
            if ty(v) == 'b' and self.p.t(self.p.strip(e['t']))['k'] != 'bool':
                return ite(v, ONE, ZERO)
            return v
        if ck == 'FloatingToIntegral':
            return fn1('trunc', v)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            return self.tobool(v)
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return NULL
        return v
    def e_cond(self, e, S, F):
        c = self.cond(e['c'], S, F)
        if c is TRUE:
            return self.ev(e['a'], S, F)
        if c is FALSE:
            return self.ev(e['b'], S, F)
        Sa, Sb = S.fork(c), S.fork(not_(c))
        va = self.ev(e['a'], Sa, F)
        vb = self.ev(e['b'], Sb, F)
        m, v = self.merge([(Sa, va), (Sb, vb)])
        if m is None:
            S.guard = S.guard + (FALSE,)
            return raw('noreturn')
        S.set(m)
        return v
    def e_idx(self, e, S, F):
        return self.index(e, S, F)
    def e_assign(self, e, S, F):
        at = e['a'].get('t')
        if not e.get('comp'):
            v = self.ev(e['b'], S, F)
            lv = self.lv(e['a'], S, F)
        else:
            lv = self.lv(e['a'], S, F)
            b = self.ev(e['b'], S, F)
            a = self.read(S, lv)
            ct = e.get('ct')
            v = self.arith(e['op'], a, b, ct, at, e['b'].get('t'))
            if self.tc(at) == 'i' and self.tc(ct) == 'r':
                v = fn1('trunc', v)
        self.event('store', None, S, F, e, args=[v], recvlv=lv)
        self.write(S, lv, v)
        return lv
    def arith(self, op, a, b, t=None, ta=None, tb=None):
        if ty(a) == 'b' and op in ('+', '-', '*', '/', '%'):
            a = ite(a, ONE, ZERO)
        if ty(b) == 'b' and op in ('+', '-', '*', '/', '%'):
            b = ite(b, ONE, ZERO)
        if op == '+':
            if ty(a) == 'p':
                return padd(a, b)
            if ty(b) == 'p':
                return padd(b, a)
            return add(a, b)
        if op == '-':
            if ty(a) == 'p' and ty(b) != 'p':
                return padd(a, neg(b))
            if ty(a) == 'p':
                return app('pdiff', a, b, ty='i')
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            if t is not None and self.tc(t) == 'i':
                return idiv(a, b)
            return div(a, b)
        if op == '%':
            return imod(a, b)
        if op == '&' and ty(a) == 'b' and ty(b) == 'b':
            return and_(a, b)
        if op == '|' and ty(a) == 'b' and ty(b) == 'b':
            return or_(a, b)
        if op == '^' and ty(a) == 'b' and ty(b) == 'b':
            return not_(eq(a, b))
        if isnum(a) and isnum(b) and op in ('<<', '>>', '&', '|', '^'):
            x, y = int(a.a[1]), int(b.a[1])
            return const({'<<': x << y, '>>': x >> y, '&': x & y, '|': x | y, '^': x ^ y}[op])
        return app('op' + op, a, b, ty='i')
    def compare(self, op, a, b):
        if a.op in ('vit', 'rit', 'mit', 'mend', 'sit') or b.op in ('vit', 'rit', 'mit', 'mend', 'sit'):
            return itcmp(op, a, b)
        if ty(a) == 'b' and ty(b) in ('i', 'r'):
            a = ite(a, ONE, ZERO)
        if ty(b) == 'b' and ty(a) in ('i', 'r'):
            b = ite(b, ONE, ZERO)
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return not_(eq(a, b))
        if ty(a) in ('o', 'p') or ty(b) in ('o', 'p'):
            return app('cmp' + op, a, b, ty='b')
        return {'<': lambda: lt(a, b), '>': lambda: lt(b, a), '<=': lambda: le(a, b), '>=': lambda: le(b, a)}[op]()
    def e_bin(self, e, S, F):
        op = e['op']
        if op in ('&&', '||'):
            a = self.cond(e['a'], S, F)
            if op == '&&' and a is FALSE or op == '||' and a is TRUE:
                return a
            S2 = S.fork(a if op == '&&' else not_(a))
            b = self.cond(e['b'], S2, F)
            if S2.infeasible():
                S.assume(not_(a) if op == '&&' else a)
                return FALSE if op == '&&' else TRUE
            if any(S.mem.get(k) is not v for k, v in S2.mem.items() if k[0] != 'T') or any(S.H.get(k) is not v for k, v in S2.H.items()):
                m, _ = self.merge([(S2, None), (S.fork(not_(a) if op == '&&' else a), None)])
                S.set(m)
            else:
                S.mem.update(S2.mem)
            return and_(a, b) if op == '&&' else or_(a, b)
        if op == ',':
            self.ev(e['a'], S, F)
            return self.ev(e['b'], S, F)
        a = self.ev(e['a'], S, F)
        b = self.ev(e['b'], S, F)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b)
        return self.arith(op, a, b, e['t'])
    def e_un(self, e, S, F):
        op = e['op']
        if op in ('++', '--'):
            lv = self.lv(e['e'], S, F)
            old = self.read(S, lv)
            d = ONE if op == '++' else const(-1)
            new = self.bump(old, d)
            self.event('store', None, S, F, e, args=[new], recvlv=lv)
            self.write(S, lv, new)
            return old if e.get('post') else new
        if op == '&':
            if e['e']['k'] in ('fnref', 'memfn', 'fieldref'):
                return self.ev(e['e'], S, F)
            lv = self.lv(e['e'], S, F)
            return self.addr(lv)
        if op == '*':
            return self.lv(e, S, F)
        v = self.ev(e['e'], S, F)
        if op == '-':
            return neg(ite(v, ONE, ZERO) if ty(v) == 'b' else v)
        if op == '+':
            return v
        if op == '!':
            return not_(self.tobool(v))
        return app('un' + op, v, ty='i')
    def bump(self, v, d):
        if v.op == 'vit' or v.op == 'sit':
            return raw(v.op, v.a[0], add(v.a[1], d))
        if v.op == 'rit':
            return raw('rit', v.a[0], add(v.a[1], d))
        if v.op == 'ite':
            return ite(v.a[0], self.bump(v.a[1], d), self.bump(v.a[2], d))
        if ty(v) == 'p':
            return padd(v, d)
        if ty(v) == 'o':
            return app('bump', v, d, ty='o')
        return add(v, d)
    def e_new(self, e, S, F):
        p = raw('alloc', 'new%d.%d' % (F.id, self.nodeid(F, e)), self.ctx, e['at'])
        n = None
        if e.get('arr'):
            n = self.ev(e['size'], S, F) if e.get('size') else unk('size')
            init = None
            if e.get('init') is not None and (e['init']['k'] in ('zero',) or (e['init']['k'] == 'ilist' and not e['init']['a'])):
                init = {'i': ZERO, 'r': ZERO, 'b': FALSE, 'p': NULL}.get(self.tc(e['at']))
            if init is None:
                init = raw('uninit', str(p))
            cls = 'arr:' + self.p.hkey(e['at'])
            S.H[cls] = hset(S.H.get(cls) or raw('H0', cls), p, raw('fill', n, init))
        else:
            lv = self.deref(p, e['at'])
            if e.get('init') is not None:
                S.H[lv.root[2]] = hset(S.H.get(lv.root[2]) or raw('H0', lv.root[2]), p, raw('st', e['at'], None, ()))
                self.init_var(S, F, lv, e['init'], e['at'])
        self.event('new', e['at'], S, F, e, res=p, args=[n] if n is not None else [], extra={'arr': bool(e.get('arr'))})
        return p
    def e_delete(self, e, S, F):
        p = self.ev(e['e'], S, F)
        self.event('delete', None, S, F, e, args=[p], extra={'arr': bool(e.get('arr'))})
        return raw('void')
    def e_lambda(self, e, S, F):
        caps = []
        bind = {}
        thisp = None
        for c in e.get('caps') or []:
            if c.get('this'):
                thisp = F.thisp
                continue
            if 'id' not in c:
                continue
            ce = c.get('init') or {'k': 'var', 'id': c['id'], 'n': c['n'], 't': ''}
            if c.get('ref'):
                lv = F.refs.get(c['id']) or LV(('L', F.id, c['id']), (), None)
                bind[c['id']] = lv
            else:
                v = self.ev(ce, S, F)
                bind[c['id']] = v
                caps.append(v)
        t = raw('lam', '%d.%d' % (F.id, self.nodeid(F, e)), *caps)
        self.lams[t] = (e, bind, thisp, F)
        return t
    def call_lambda(self, t, vals, S, F, node):
        e, bind, thisp, F0 = self.lams[t]
        fn = {'n': 'lambda', 'q': 'lambda', 'file': F0.fn.get('file'), 'line': e.get('l'), 'ps': e.get('ps') or [], 'body': e.get('body'), 'rt': e.get('rt')}
        if not fn['body']:
            return unk('lambda')
        F2 = Frame(self.frameid(F, node), fn, 'lambda', F, thisp, F0.thiscls)
        self.stack.append(('lambda', node.get('l')))
        try:
            for i, v in bind.items():
                if isinstance(v, LV):
                    F2.refs[i] = v
                else:
                    S.mem[('L', F2.id, i)] = v
            for q, v in zip(fn['ps'], vals):
                if self.p.isref(q['t']):
                    if not isinstance(v, LV):
                        root = ('L', F2.id, q['id'])
                        S.mem[root] = v
                        v = LV(root, (), self.p.strip(q['t']))
                    F2.refs[q['id']] = v
                else:
                    S.mem[('L', F2.id, q['id'])] = self.read(S, v)
                    self.ltype[('L', F2.id, q['id'])] = self.tc(q['t'])
            out = S.fork()
            end = self.ex(fn['body'], out, F2)
            rets = list(F2.returns)
            if end is not None:
                rets.append((end, None))
            st_, val = self.merge(rets)
            if st_ is None:
                S.guard = S.guard + (FALSE,)
                return raw('noreturn')
            S.set(st_)
            return val if val is not None else raw('void')
        finally:
            self.stack.pop()
    def e_ilist(self, e, S, F):
        t = self.p.strip(e['t'])
        d = self.p.t(t)
        vals = [self.ev(x, S, F) if x else raw('uninit', 'ilist') for x in e['a']]
        if d['k'] == 'arr':
            n = d.get('n')
            if n is not None and len(vals) < int(n) <= 64:
                vals += [ZERO] * (int(n) - len(vals))
            return raw('vec', *vals)
        q = d.get('q')
        if q in ('std::initializer_list', 'std::vector'):
            return raw('vec', *vals)
        if q == 'std::array':
            return vals[0] if vals and vals[0].op == 'vec' else raw('vec', *vals)
        if d['k'] == 'rec':
            fs = self.p.fields(d.get('rec') or t)
            nb = len(self.p.bases.get(d.get('rec') or t, ()))
            if len(fs) >= len(vals):
                out = {}
                for fl, v in zip(fs, vals):
                    out[fl['n']] = v
                for fl in fs[len(vals):]:
                    if fl.get('init'):
                        out[fl['n']] = self.ev(fl['init'], S, F)
                return st(d.get('rec') or t, None, out)
            return unk('ilist')
        return vals[0] if vals else self.e_zero(e, S, F)
    def e_ctor(self, e, S, F):
        return self.ctor_value(S, F, e)
    def nullmoved(self, S, F, src):
        e = src
        while e['k'] in ('cast',) and e.get('e'):
            e = e['e']
        if e['k'] == 'call' and e['n'] in ('move', 'forward') and e['a']:
            lv = self.lv(e['a'][0], S, F, soft=True)
            if lv is not None and e['n'] == 'move':
                self.write(S, lv, NULL)
            elif lv is not None and self.p.t(e.get('t', ''))['k'] != 'ref' and not e.get('fn', '').startswith('std::forward<const') and '&>(' not in e.get('fn', '').split('(')[0] + '>(':
                pass
        elif e['k'] == 'var':
            pass
    def ctor_value(self, S, F, e):
        t = self.p.strip(e['t'])
        d = self.p.t(t)
        q = d.get('q') or ''
        A = e['a']
        if (e.get('copy') or e.get('move')) and A:
            v = self.ev(A[0], S, F)
            if e.get('move') and self.p.issmart(t):
                self.nullmoved(S, F, A[0])
            f = self.p.F.get(e.get('fn'))
            return v
        f = self.p.F.get(e.get('fn'))
        if f is not None and (f.get('body') or f.get('inits')) and F.depth < self.maxdepth:
            root = ('T', F.id, self.nodeid(F, e))
            lv = LV(root, (), t)
            self.construct(S, F, lv, e)
            return self.read(S, lv)
        rec = d.get('rec') or t
        if rec in self.p.R and not A:
            # implicit default constructor of a repository class
            return self.default_obj(S, F, rec)
        vals = [self.ev(x, S, F) for x in A]
        return self.std_ctor(S, F, e, t, q, d, vals)
    def default_obj(self, S, F, rec):
        out = {}
        for fl in self.p.fields(rec):
            if fl.get('init') is not None:
                out[fl['n']] = self.ev(fl['init'], S, F)
            else:
                v = self.default_value(S, F, fl['t'])
                if v is None:
                    rk = self.p.reckey(self.p.strip(fl['t']))
                    if rk in self.p.R and rk != rec:
                        v = self.default_obj(S, F, rk)
                if v is not None:
                    out[fl['n']] = v
        return st(rec, None, out)
    def std_ctor(self, S, F, e, t, q, d, vals):
        if self.p.issmart(t):
            if not vals:
                return NULL
            if e['a'] and vals and self.p.tq(e['a'][0].get('t', '')) == 'std::unique_ptr':
                self.nullmoved(S, F, e['a'][0])
            return vals[0]
        if q == 'std::vector':
            if not vals:
                return raw('vec')
            if vals[0].op in ('vec', 'push', 'vset', 'fill') and len(vals) <= 2 and (e.get('stdlist') or self.p.tq(e['a'][0].get('t', '')) in ('std::initializer_list', 'std::vector')):
                return vals[0]
            if ty(vals[0]) == 'i':
                et = d['ta'][0] if d.get('ta') else None
                fill = vals[1] if len(vals) > 1 and ty(vals[1]) != 'o' or len(vals) > 2 else None
                if fill is None:
                    fill = {'i': ZERO, 'r': ZERO, 'b': FALSE, 'p': NULL}.get(self.tc(et)) or raw('uninit', 'elem')
                if isnum(vals[0]) and vals[0].a[1] <= 16:
                    return raw('vec', *[fill] * int(vals[0].a[1]))
                return raw('fill', vals[0], fill)
            if len(vals) >= 2 and vals[0].op == 'vit' and vals[1].op == 'vit':
                return app('vrange', self.read(S, self.deref(vals[0].a[0], None)), vals[0].a[1], vals[1].a[1], ty='o')
            return app('vector', *vals, ty='o')
        if q in ('std::set', 'std::unordered_set', 'std::unordered_map', 'std::map', 'std::priority_queue', 'std::multiset'):
            return raw('emp')
        if q == 'std::pair':
            if len(vals) == 2:
                return st('pair', None, {'first': vals[0], 'second': vals[1]})
            if len(vals) == 1:
                return vals[0]
        if q == 'std::tuple':
            if len(vals) == 1 and len(d.get('ta') or []) != 1:
                return vals[0]
            return tup(*vals)
        if 'Eigen' in q or q.startswith('Eigen'):
            if 'Rotation2D' in q:
                return st('rot', None, {'a': vals[0]})
            if len(vals) == 2:
                return st('V2', None, {'0': vals[0], '1': vals[1]})
            if len(vals) == 1:
                return vals[0]
            return raw('uninit', 'V2#%d.%d' % (F.id, self.nodeid(F, e)))
        if q in ('std::hash', 'std::equal_to', 'std::less', 'std::greater'):
            return raw('st', t, None, ())
        if q == 'std::function' and vals:
            return vals[0]
        if q == 'std::reverse_iterator' and vals:
            return vals[0]
        if q == 'std::array' and not vals:
            v = self.default_value(S, F, t)
            if v is not None:
                return v
        if 'iterator' in q and len(vals) == 1:
            return vals[0]
        if q == 'std::basic_string' and vals:
            return vals[0] if ty(vals[0]) == 'o' else app('string', *vals, ty='o')
        if not vals and q.startswith('std::') and not q.startswith('std::chrono'):
            return app('new:' + q, self.site(F, e), ty='o')
        rec = d.get('rec') or t
        if rec in self.p.R and not e.get('fn') in self.p.F:
            fs = self.p.fields(rec)
            if not vals:
                return self.default_obj(S, F, rec)
        return app('new:' + (q or t), *vals, ty='o')

    # ------------------------------------------------------------------ calls
    def receiver(self, e, S, F):
        o = e['obj']
        if e.get('arrow'):
            t = e.get('objt') or o.get('t')
            p = self.ev(o, S, F)
            return self.deref(p, self.p.pointee(t) or e.get('cls'))
        lv = self.lv(o, S, F, soft=True)
        if lv is None:
            v = self.ev(o, S, F)
            if isinstance(v, LV):
                return v
            lv = LV(('V', v), (), self.p.strip(o.get('t') or e.get('objt') or ''))
            if v.op not in ('st', 'app', 'fld') or True:
                root = ('T', F.id, self.nodeid(F, o))
                S.mem[root] = v
                lv = LV(root, (), self.p.strip(o.get('t') or e.get('objt') or ''))
        return lv
    def dynclass(self, lv, F):
        """exact class of the object, or None"""
        if lv.root[0] == 'O' and not lv.path:
            p = lv.root[1]
            if p in self.dyn:
                return self.dyn[p]
            if p.op == 'alloc':
                rk = self.p.reckey(p.a[2]) or p.a[2]
                return rk if rk in self.p.R else None
            fr = F
            while fr is not None:
                if fr.thisp is p and fr.thiscls:
                    return fr.thiscls if p is F.thisp and p.op != 'fld' and False else None
                fr = fr.parent
            return None
        if lv.root[0] == 'P' and not lv.path:
            return None
        if lv.root[0] == 'I':
            return None
        if lv.root[0] == 'V':
            return None
        rk = self.p.reckey(self.p.strip(lv.t or '')) if lv.t else None
        return rk
    def call(self, e, S, F):
        q, n = e.get('q'), e.get('n')
        if e.get('callee') is not None:
            c = self.ev(e['callee'], S, F)
            vals = [self.ev(a, S, F) for a in e['a']]
            if c.op == 'lam':
                return self.call_lambda(c, vals, S, F, e)
            if c.op == 'fnref' and c.a[0] in self.p.F:
                fn = self.p.F[c.a[0]]
                if fn.get('body'):
                    return self.inline(S, F, c.a[0], fn, None, vals, e)
            return app('callptr', c, *vals, ty=self.tc(e['t']))
        key = e.get('fn')
        if e.get('lambda') is not None:
            o = self.ev(e['obj'], S, F)
            pts = e.get('pt') or []
            vals = [self.lvref(a, S, F) if i < len(pts) and self.p.isref(pts[i]) else self.ev(a, S, F) for i, a in enumerate(e['a'])]
            if o.op == 'lam':
                return self.call_lambda(o, vals, S, F, e)
            return app('call:lambda', o, *[self.read(S, v) for v in vals], ty=self.tc(e['t']))
        fn = self.p.F.get(key)
        if e.get('repo') or fn is not None:
            return self.repo_call(e, S, F, key, fn)
        return self.std_call(e, S, F)
    e_call = call
    def repo_call(self, e, S, F, key, fn):
        recv = None
        ps = [{'t': t} for t in (e.get('pt') or [])]
        if e.get('obj') is not None and not e.get('st'):
            recv = self.receiver(e, S, F)
        elif e.get('obj') is not None:
            self.lv(e['obj'], S, F, soft=True)
        vals = self.args(S, F, e['a'], ps)
        return self.dispatch(e, S, F, key, fn, recv, vals)
    def dispatch(self, e, S, F, key, fn, recv, vals):
        n = e.get('n')
        if recv is not None and recv.root[0] == 'I' and not recv.path and e.get('virt') and not e.get('qual'):
            c, a, b = recv.root[1:]
            if self.dynclass(a, F) or self.dynclass(b, F):
                Sa, Sb = S.fork(c), S.fork(not_(c))
                va = self.dispatch(e, Sa, F, key, fn, a, vals)
                vb = self.dispatch(e, Sb, F, key, fn, b, vals)
                m, v = self.merge([(Sa, va), (Sb, vb)])
                if m is None:
                    S.guard = S.guard + (FALSE,)
                    return raw('noreturn')
                S.set(m)
                return v
        target = key
        known = True
        if recv is not None and e.get('virt') and not e.get('qual'):
            dc = self.dynclass(recv, F)
            if dc is not None:
                t2 = self.p.resolve_virtual(key, dc)
                if t2:
                    target = t2
            elif self.p.overriders(key) or (self.p.methodrec(key) or {}).get('pure'):
                known = False
        fn = self.p.F.get(target)
        rv = self.read(S, recv) if recv is not None else None
        avals = [self.read(S, v) for v in vals]
        ev = self.event('call', n, S, F, e, fn=target, recv=rv, recvlv=recv, args=avals, lvs=vals)
        q = (fn or e).get('q') or e.get('q')
        ok = known and fn is not None and (fn.get('body') or fn.get('kind') == 'ctor') and n not in self.opaque and q not in self.opaque \
            and F.depth < self.maxdepth and sum(1 for k, _ in self.stack if k == target) < 1 and not (fn.get('kind') == 'ctor')
        if ok:
            dyncls = None
            thisp = self.addr(recv) if recv is not None else None
            if ev is not None:
                ev.inl = True
            r = self.inline(S, F, target, fn, thisp, vals, e, fn.get('cls'))
            if not self.p.isref(fn.get('rt') or '') and isinstance(r, LV):
                r = self.read(S, r)
        else:
            self.opaqued.add((target, 'virtual' if not known else 'body'))
            r = self.opaque_call(e, S, F, target, recv, rv, vals, avals)
        if ev is not None:
            ev.res = self.read(S, r) if isinstance(r, LV) else r
        return r
    def opaque_call(self, e, S, F, key, recv, rv, vals, avals, pref='call:'):
        n = e.get('n')
        tc = self.tc(e.get('t'))
        site = (self.site(F, e),) if n in FRESH else ()
        ins = ([rv] if rv is not None else []) + avals
        # values behind pointers / references to objects
        deep = []
        pts = e.get('pt') or []
        for i, a in enumerate(avals):
            deep.append(a)
        full = ([rv] if rv is not None else []) + deep
        if n == 'Connect' or (n in FRESH and tc == 'p' and n == 'Connect'):
            p = raw('alloc', 'Connect%d.%d' % (F.id, self.nodeid(F, e)), self.ctx, 'opaque')
            cls = self.p.hkey(self.p.pointee(e['t']) or '')
            S.H[cls] = hset(S.H.get(cls) or raw('H0', cls), p, app('call:' + n, *full, ty='o'))
            res = p
        else:
            res = app(pref + n, *(tuple(full) + site), ty=tc)
        # effects
        for i, (v, a) in enumerate(zip(vals, avals)):
            t = pts[i] if i < len(pts) else None
            d = self.p.t(t) if t else {'k': 'other'}
            if d['k'] in ('ref', 'rref') and isinstance(v, LV) and not self.p.t(d['to']).get('cst') and not self.p.t(d['to']).get('c') and not d['to'].startswith('const '):
                if d['k'] == 'ref':
                    self.write(S, v, app('out:%s:%d' % (n, i), *(tuple(full) + site), ty=self.tc(v.t)))
            elif d['k'] == 'ptr' and a is not NULL and not d['to'].startswith('const ') and ty(a) == 'p':
                if self.tc(d['to']) != 'o' and a.op == 'addr':
                    lv = self.deref(a, d['to'])
                    self.write(S, lv, app('out:%s:%d' % (n, i), *(tuple(full) + site), ty=self.tc(d['to'])))
                elif a.op == 'addr' or self.tc(d['to']) != 'o' and a.op not in ('alloc',):
                    lv = self.deref(a, d['to'])
                    self.write(S, lv, app('out:%s:%d' % (n, i), *(tuple(full) + site), ty=self.tc(d['to'])))
        if recv is not None and not e.get('cst') and n not in self.nomut:
            self.write(S, recv, app('mut:' + n, *full, ty='o'))
        if e.get('lv') or self.p.isref(e.get('t') or ''):
            return LV(('V', res), (), self.p.strip(e['t']))
        return res

    def make_object(self, S, F, e, t, args, tag):
        """allocate and construct an object of type t from already evaluated arguments (LV or Term)"""
        p = raw('alloc', '%s%d.%d' % (tag, F.id, self.nodeid(F, e)), self.ctx, t)
        rk = self.p.reckey(self.p.strip(t)) or t
        lv = self.deref(p, t)
        cand = []
        avals = [self.read(S, a) for a in args]
        for k, f in self.p.F.items():
            if f.get('kind') == 'ctor' and f.get('cls') == rk:
                ps = f.get('ps', [])
                if len(ps) < len(args) or any(q.get('def') is None for q in ps[len(args):]):
                    continue
                sc = 0
                for q, a, ae in zip(ps, args, e.get('pt') or [None] * len(args)):
                    if ae is not None:
                        x, y = self.p.strip(q['t']).replace('const ', ''), self.p.strip(ae).replace('const ', '')
                        sc += 2 if x == y else 0
                        tx, tyy = self.tc(x), self.tc(y)
                        if tx != tyy and not {tx, tyy} <= {'i', 'r', 'b'}:
                            sc -= 5
                        if tx == tyy and tx == 'o' and x != y and not (set(self.p.supers(self.p.reckey(y) or y)) & {self.p.reckey(x) or x}):
                            sc -= 3
                cand.append((sc, -len(ps), k, f))
        cls = lv.root[2] if lv.root[0] == 'O' else None
        S.H[cls] = hset(S.H.get(cls) or raw('H0', cls), p, raw('st', rk, None, ()))
        if cand:
            sc, _, k, f = max(cand, key=lambda c: (c[0], c[1], c[2]))
            ps = f.get('ps', [])
            vals = list(args)
            for q in ps[len(args):]:
                vals.append(self.ev(q['def'], S, F))
            self.event('make', t, S, F, e, fn=k, args=[self.read(S, v) for v in vals], res=p)
            if F.depth < self.maxdepth and not any(x == k for x, _ in self.stack):
                self.inline(S, F, k, f, p, vals, e, rk)
            else:
                S.H[cls] = hset(S.H[cls], p, app('new:' + rk, *avals, ty='o'))
            return p
        if rk in self.p.R and not args:
            S.H[cls] = hset(S.H[cls], p, self.default_obj(S, F, rk))
            self.event('make', t, S, F, e, args=[], res=p)
            return p
        v = avals[0] if len(avals) == 1 and e.get('pt') and self.p.reckey(self.p.strip(e['pt'][0])) == rk else app('new:' + str(rk), *avals, ty='o')
        # base constructors taken over with "using": forward to the base
        S.H[cls] = hset(S.H[cls], p, v)
        self.event('make', t, S, F, e, args=avals, res=p)
        return p

    # ------------------------------------------------------------------ library models
    def std_call(self, e, S, F):
        q, n, A = e.get('q') or '', e.get('n') or '', e['a']
        tc = self.tc(e.get('t'))
        if q in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const', 'std::addressof') and A:
            lv = self.lv(A[0], S, F, soft=True)
            return lv if lv is not None else self.ev(A[0], S, F)
        if q in ('std::make_shared', 'std::make_unique'):
            t = self.p.pointee(e['t'])
            pts = e.get('pt') or []
            vals = self.args(S, F, A, [{'t': x} for x in pts])
            if self.p.t(t)['k'] == 'arr':
                return unk('make_unique[]')
            rk = self.p.reckey(self.p.strip(t)) or t
            if rk not in self.p.R:
                avals = [self.read(S, v) for v in vals]
                p = raw('alloc', '%s%d.%d' % (n, F.id, self.nodeid(F, e)), self.ctx, t)
                lv = self.deref(p, t)
                self.write(S, lv, app('new:' + str(rk), *avals, ty='o'))
                return p
            return self.make_object(S, F, e, t, vals, n)
        if e.get('obj') is not None:
            return self.std_method(e, S, F)
        # free functions
        if q.startswith('std::get') and A and n == 'get':
            idx = None
            try:
                idx = str(int(e.get('fn', '').split('get<')[1].split(',')[0].split('>')[0]))
            except (IndexError, ValueError):
                pass
            lv = self.lvref(A[0], S, F)
            tq = self.p.tq(A[0].get('t') or '') or self.p.tq((e.get('pt') or [''])[0])
            if idx is not None:
                if tq == 'std::array':
                    return lv.i(const(int(idx)), tc, self.p.strip(e['t']))
                name = idx if tq != 'std::pair' else ('first', 'second')[int(idx)]
                return lv.f(name, tc, self.p.strip(e['t']))
            return unk('get')
        if n.startswith('operator') and e.get('opcall') is not None or n in ('operator==', 'operator!='):
            return self.std_operator(e, S, F, None)
        pts = e.get('pt') or []
        if q in ('std::swap',) and len(A) == 2:
            a, b = self.lv(A[0], S, F), self.lv(A[1], S, F)
            va, vb = self.read(S, a), self.read(S, b)
            self.write(S, a, vb)
            self.write(S, b, va)
            return raw('void')
        if q == 'std::exchange' and len(A) == 2:
            a = self.lv(A[0], S, F)
            va = self.read(S, a)
            self.write(S, a, self.ev(A[1], S, F))
            return va
        if q in ('std::max', 'std::min', 'std::clamp'):
            v = [self.ev(a, S, F) for a in A]
            if q == 'std::clamp' and len(v) == 3:
                return minmax('min', minmax('max', v[0], v[1]), v[2])
            if len(v) == 1 and v[0].op == 'vec':
                v = list(v[0].a)
            if all(ty(x) in ('i', 'r') for x in v):
                if len(v) == 2 and S.guard:
                    for x, y in ((v[0], v[1]), (v[1], v[0])):
                        if entails(S.guard, le(x, y), 1):
                            return x if n == 'min' else y
                return minmax(n, *v)
            return app(n, *v, ty=tc)
        vals = [self.ev(a, S, F) for a in A]
        if q in ('std::tie', 'std::forward_as_tuple'):
            return tup(*vals)
        if q == 'std::make_tuple':
            return tup(*vals)
        if q == 'std::make_pair':
            return st('pair', None, {'first': vals[0], 'second': vals[1]})
        short = q.split('::')[-1]
        if q in ('std::' + short, short) and short in ('sin', 'cos', 'sqrt', 'abs', 'fabs', 'floor', 'ceil', 'round', 'trunc', 'sqrtf', 'fabsf', 'floorf', 'ceilf', 'lround'):
            s = {'fabs': 'abs', 'sqrtf': 'sqrt', 'fabsf': 'abs', 'floorf': 'floor', 'ceilf': 'ceil', 'lround': 'round'}.get(short, short)
            return fn1(s, vals[0])
        if short in ('hypot',) and len(vals) == 2:
            return fn1('sqrt', add(mul(vals[0], vals[0]), mul(vals[1], vals[1])))
        if short in ('pow', 'powf') and len(vals) == 2 and isnum(vals[1]) and vals[1].a[1].denominator == 1 and 0 <= vals[1].a[1] <= 6:
            r = ONE
            for _ in range(int(vals[1].a[1])):
                r = mul(r, vals[0])
            return r
        if short == 'tan':
            return app('tan', vals[0]) if vals[0] is not ZERO else ZERO
        if short in ('atan', 'acos', 'asin', 'atan2', 'fmod', 'log', 'exp', 'pow', 'isnan', 'isinf', 'isfinite'):
            return app(short, *vals, ty='b' if short.startswith('is') else 'r')
        if short in ('infinity',):
            return INF
        if q.endswith('numeric_limits::max') or short == 'max' and not vals:
            return INF if tc == 'r' else sym('INT_MAX', 'i')
        if q.endswith('numeric_limits::lowest'):
            return NINF
        if short == 'epsilon':
            return sym('epsilon', 'r')
        if short in ('next', 'prev') and vals and vals[0].op in ('vit', 'rit', 'sit'):
            d = vals[1] if len(vals) > 1 else ONE
            return self.bump(vals[0], d if short == 'next' else neg(d))
        if short == 'distance' and len(vals) == 2 and vals[0].op == vals[1].op and vals[0].op in ('vit', 'rit') and vals[0].a[0] is vals[1].a[0]:
            return sub(vals[1].a[1], vals[0].a[1])
        if short in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'size') and len(A) == 1:
            lv = self.lvref(A[0], S, F)
            return self.container_method(dict(e, n=short.replace('cbegin', 'begin').replace('cend', 'end'), a=[]), S, F, lv, self.p.tq(A[0].get('t') or ''), [], [])
        if short in ('fill',) and len(vals) == 3 and vals[0].op == 'vit':
            lv = self.deref(vals[0].a[0], None)
            v = self.read(S, lv)
            if vals[0].a[1] is ZERO and vals[1].op == 'vit' and vals[1].a[1] is size(v):
                self.write(S, lv, raw('fill', size(v), vals[2]))
                return raw('void')
            self.write(S, lv, app('filled', v, vals[0].a[1], vals[1].a[1] if vals[1].op == 'vit' else vals[1], vals[2], ty='o'))
            return raw('void')
        if short in ('fill', 'fill_n') and vals and ty(vals[0]) == 'p':
            # std::fill(p, p + n, v) / std::fill_n(p, n, v) over a raw array
            p0 = vals[0]
            base, off = (p0.a[0], p0.a[1]) if p0.op == 'padd' else (p0, ZERO)
            if short == 'fill':
                p1 = vals[1]
                cnt = sub(p1.a[1] if p1.op == 'padd' and p1.a[0] is base else unk('n'), off)
            else:
                cnt = vals[1]
            et = self.p.pointee(A[0].get('t') or '') or ''
            cls = 'arr:' + self.p.hkey(et)
            self.event('call', short, S, F, e, args=[base, off, cnt, vals[2]])
            for w in self.wlog:
                w.append((('O', base, cls), ()))
            S.H[cls] = hset(S.H.get(cls) or raw('H0', cls), base, raw('fill', cnt, vals[2]) if off is ZERO else app('filled', hget(S.H.get(cls) or raw('H0', cls), base), off, cnt, vals[2], ty='o'))
            return raw('void')
        if short in ('find_if', 'adjacent_find', 'upper_bound', 'lower_bound', 'any_of', 'all_of', 'none_of', 'count_if', 'for_each', 'accumulate', 'find', 'sort', 'reverse', 'min_element', 'max_element', 'transform', 'copy', 'remove_if', 'remove'):
            return self.algorithm(short, e, vals, S, F)
        if short in ('isnan',):
            return app('isnan', *vals, ty='b')
        # effects on writable reference arguments
        ev = self.event('call', n, S, F, e, fn=e.get('fn'), args=vals)
        r = app('std:' + q, *vals, ty=tc)
        if short in ('now', 'random_device', 'rand'):
            r = app('std:' + q, *(list(vals) + [self.site(F, e)]), ty=tc)
        for i, (a, v) in enumerate(zip(A, vals)):
            t = pts[i] if i < len(pts) else None
            d = self.p.t(t) if t else {'k': 'other'}
            if d['k'] == 'ref' and not d['to'].startswith('const '):
                lv = self.lv(a, S, F, soft=True)
                if lv is not None:
                    self.write(S, lv, app('out:%s:%d' % (n, i), *vals, ty=self.tc(lv.t)))
        if ev is not None:
            ev.res = r
        if e.get('lv'):
            return LV(('V', r), (), self.p.strip(e['t']))
        return r
    def algorithm(self, short, e, vals, S, F):
        """algorithms over a whole vector with a predicate: canonical quantified terms"""
        tc = self.tc(e.get('t'))
        ev = self.event('call', short, S, F, e, args=vals)
        if vals and vals[0].op == 'vit':
            lv = self.deref(vals[0].a[0], None)
            cont = self.read(S, lv)
            lo = vals[0].a[1]
            hi = vals[1].a[1] if len(vals) > 1 and vals[1].op == 'vit' else size(cont)
            lam = next((v for v in vals if v.op == 'lam'), None)
            if short in ('upper_bound', 'lower_bound', 'partition_point', 'find_if', 'find_if_not') and lam is not None and lam in self.lams and cont.op == 'vec' and isconst(lo) and isconst(hi) and len(cont.a) <= 8:
                ps = self.lams[lam][0].get('ps') or []
                S2 = S.fork()
                self.quiet += 1
                prs = []
                try:
                    ei = {'upper_bound': 1}.get(short, 0)
                    for k in range(int(cval(lo)), int(cval(hi))):
                        t = self.p.strip(ps[ei]['t'])
                        x = LV(lv.root, lv.path + (('i', const(k), self.tc(t)),), t)
                        x = x if self.p.isref(ps[ei]['t']) else self.read(S2, x)
                        args = [vals[2], x] if short == 'upper_bound' else [x, vals[2]] if short == 'lower_bound' else [x]
                        pr = self.call_lambda(lam, args, S2, F, e)
                        pr = self.read(S2, pr) if isinstance(pr, LV) else pr
                        prs.append(pr if short in ('upper_bound', 'find_if') else not_(pr))
                finally:
                    self.quiet -= 1
                idx = hi
                for k in range(len(prs) - 1, -1, -1):
                    pr = prs[k]
                    if entails(S.guard, pr):
                        idx = add(lo, const(k))
                    elif entails(S.guard, not_(pr)):
                        pass
                    else:
                        idx = ite(pr, add(lo, const(k)), idx)
                return raw('vit', vals[0].a[0], idx)
            if lam is not None and lam in self.lams and short in ('find_if', 'any_of', 'all_of', 'none_of', 'count_if', 'adjacent_find', 'for_each'):
                et = None
                i = raw('iv', ('#',))
                S2 = S.fork()
                self.quiet += 1
                try:
                    le_ = self.lams[lam][0]
                    ps = le_.get('ps') or []
                    def el(k, q):
                        t = self.p.strip(q['t'])
                        x = LV(lv.root, lv.path + (('i', k, self.tc(t)),), t)
                        return x if self.p.isref(q['t']) else self.read(S2, x)
                    if short == 'adjacent_find':
                        args = [el(i, ps[0]), el(add(i, ONE), ps[1])]
                    else:
                        args = [el(i, ps[0])]
                    pr = self.call_lambda(lam, args, S2, F, e)
                finally:
                    self.quiet -= 1
                if isinstance(pr, LV):
                    pr = self.read(S2, pr)
                if short != 'for_each':
                    if short in ('any_of', 'all_of', 'none_of'):
                        lo_ok = or_(lt(i, lo), not_(lt(i, hi)))
                        if short == 'all_of':
                            return raw('forall', or_(lo_ok, pr))
                        r = raw('forall', or_(lo_ok, not_(pr)))
                        return r if short == 'none_of' else not_(r)
                    idx = app(short, cont, lo, hi, pr, ty='i')
                    return raw('vit', vals[0].a[0], idx)
            if short in ('upper_bound', 'lower_bound', 'find') and len(vals) >= 3:
                idx = app(short, cont, lo, hi, *vals[2:3], ty='i')
                return raw('vit', vals[0].a[0], idx)
            if short in ('sort', 'reverse', 'for_each', 'transform', 'copy', 'remove_if', 'remove'):
                self.write(S, lv, app('alg:' + short, cont, lo, hi, *vals[2:], ty='o'))
                return raw('vit', vals[0].a[0], app('alg:' + short, cont, lo, hi, *vals[2:], ty='i'))
        return app('alg:' + short, *vals, ty=tc)
    def vecval(self, e, vals):
        return vals
    def std_operator(self, e, S, F, recv):
        """operators on library types; recv is the LV of the object for member operators"""
        op = e.get('opcall') or (e['n'][8:] if e['n'].startswith('operator') else e['n'])
        A = e['a']
        if op == '<<' or op == '>>':
            a0 = recv if recv is not None else self.lv(A[0], S, F, soft=True)
            vals = [self.ev(a, S, F) for a in (A if recv is not None else A[1:])]
            if a0 is not None:
                self.event('call', 'operator' + op, S, F, e, recvlv=a0, args=vals)
                return a0
            return app('stream', *vals, ty='o')
        vals = [self.ev(a, S, F) for a in A]
        if recv is not None:
            vals = [self.read(S, recv)] + vals
        a = vals[0]
        b = vals[1] if len(vals) > 1 else None
        t = self.tc(e.get('t'))
        if b is not None and op in ('==', '!=', '<', '>', '<=', '>='):
            if a.op in ('vit', 'rit', 'mit', 'mend', 'sit', 'ite') or b.op in ('vit', 'rit', 'mit', 'mend', 'sit') or ty(a) in ('p', 'i', 'r', 'b'):
                return self.compare(op, a, b)
            if op in ('==', '!='):
                if is_v2(a) or is_v2(b) or 'Eigen' in (e.get('q') or '') + (e.get('clsq') or ''):
                    r = and_(eq(v2(a, 0), v2(b, 0)), eq(v2(a, 1), v2(b, 1)))
                    return r if op == '==' else not_(r)
                return self.compare(op, a, b)
            return app('cmp' + op, a, b, ty='b')
        eig = 'Eigen' in (e.get('q') or '') + (e.get('clsq') or '') + (e.get('fn') or '')
        if eig:
            if op == '-' and b is None:
                return V2(neg(v2(a, 0)), neg(v2(a, 1)))
            if op in ('+', '-', '+=', '-='):
                f = add if op[0] == '+' else sub
                r = V2(f(v2(a, 0), v2(b, 0)), f(v2(a, 1), v2(b, 1)))
            elif op in ('*', '*='):
                if a.op == 'st' and a.a[0] == 'rot':
                    if b.op == 'st' and b.a[0] == 'rot':
                        return st('rot', None, {'a': add(fld(a, 'a'), fld(b, 'a'))})
                    c, s = fn1('cos', fld(a, 'a', 'r')), fn1('sin', fld(a, 'a', 'r'))
                    x, y = v2(b, 0), v2(b, 1)
                    return V2(sub(mul(c, x), mul(s, y)), add(mul(s, x), mul(c, y)))
                if ty(a) in ('r', 'i') and ty(b) == 'o':
                    r = V2(mul(a, v2(b, 0)), mul(a, v2(b, 1)))
                elif ty(b) in ('r', 'i'):
                    r = V2(mul(v2(a, 0), b), mul(v2(a, 1), b))
                else:
                    return app('eigen*', a, b, ty='o')
            elif op in ('/', '/='):
                r = V2(div(v2(a, 0), b), div(v2(a, 1), b))
            elif op == '=':
                r = b
            elif op in ('[]', '()'):
                if recv is not None and isnum(b):
                    return recv.f(str(int(b.a[1])), t, self.p.strip(e['t']))
                if b.op == 'ite' or ty(b) == 'i':
                    return LV(('V', self.v2idx(a, b)), (), e['t'])
                return unk('eigen[]')
            else:
                return app('eigen' + op, *vals, ty=t)
            if op.endswith('=') and recv is not None:
                self.event('store', None, S, F, e, args=[r], recvlv=recv)
                self.write(S, recv, r)
                return recv
            return r
        if op in ('+', '-') and b is not None:
            if a.op in ('vit', 'rit', 'sit'):
                if b.op == a.op and b.a[0] is a.a[0] and op == '-':
                    return sub(a.a[1], b.a[1])
                if ty(b) == 'i':
                    return self.bump(a, b if op == '+' else neg(b))
            if ty(a) == 'o' and op == '+':
                return app('concat', a, b, ty='o')
        return None if recv is not None else app('op' + op, *vals, ty=t)
    def v2idx(self, a, i):
        if isnum(i):
            return v2(a, int(i.a[1]))
        if i.op == 'ite':
            return ite(i.a[0], self.v2idx(a, i.a[1]), self.v2idx(a, i.a[2]))
        return ite(zero(i), v2(a, 0), v2(a, 1))
    def std_method(self, e, S, F):
        n, A = e['n'], e['a']
        clsq = e.get('clsq') or ''
        op = e.get('opcall')
        if op is None and n.startswith('operator') and not n[8:9].isalnum() and not n[8:9] in ('_', ' '):
            op = n[8:]
        tc = self.tc(e.get('t'))
        recv = self.receiver(e, S, F)
        rt = self.p.strip(e.get('t') or '')
        objq = self.p.tq(e.get('objt') or '') or clsq
        # smart pointers
        if clsq in ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::weak_ptr') or (self.p.issmart(recv.t or '') and n in ('operator->', 'operator*', 'get', 'operator bool')):
            v = self.read(S, recv)
            pt = self.p.pointee(recv.t or '') or self.p.pointee(e.get('objt') or '')
            if n in ('operator->', 'get', 'lock'):
                return v
            if n == 'operator*':
                return self.deref(v, pt or rt)
            if n == 'operator bool':
                return not_(eq(v, NULL))
            if n == 'operator=':
                nv = self.ev(A[0], S, F)
                self.event('store', None, S, F, e, args=[nv], recvlv=recv, extra={'own': True})
                mv = (e.get('pt') or [''])[0]
                self.write(S, recv, nv)
                if self.p.t(mv)['k'] == 'rref':
                    self.nullmoved2(S, F, A[0], recv)
                return recv
            if n == 'reset':
                nv = self.ev(A[0], S, F) if A else NULL
                self.event('store', None, S, F, e, args=[nv], recvlv=recv, extra={'own': True, 'reset': True})
                self.write(S, recv, nv)
                return raw('void')
            if n == 'release':
                self.event('store', None, S, F, e, args=[NULL], recvlv=recv, extra={'release': True})
                self.write(S, recv, NULL)
                return v
            if n == 'swap':
                o = self.lv(A[0], S, F)
                vo = self.read(S, o)
                self.write(S, o, v)
                self.write(S, recv, vo)
                return raw('void')
            if n == 'use_count':
                return app('use_count', v, ty='i')
        # iterators
        cur = None
        if 'iterator' in clsq:
            cur = self.read(S, recv)
            if n in ('operator++', 'operator--'):
                d = ONE if n == 'operator++' else const(-1)
                nv = self.bump(cur, d)
                self.write(S, recv, nv)
                return cur if A else recv
            if n == 'operator*':
                return self.itderef(cur, S, rt)
            if n == 'operator->':
                return self.addr(self.itderef(cur, S, self.p.pointee(e.get('t') or '') or rt))
            if n == 'operator=':
                nv = self.ev(A[0], S, F)
                self.write(S, recv, nv)
                return recv
            if n in ('operator+=', 'operator-='):
                d = self.ev(A[0], S, F)
                nv = self.bump(cur, d if n == 'operator+=' else neg(d))
                self.write(S, recv, nv)
                return recv
            if n == 'operator[]':
                d = self.ev(A[0], S, F)
                return self.itderef(self.bump(cur, d), S, rt)
            if n == 'base' and cur.op == 'rit':
                v = self.read(S, self.deref(cur.a[0], None))
                return raw('vit', cur.a[0], sub(size(v), cur.a[1]))
        if op is not None and op not in ('[]', '()', '=', '->') or ('Eigen' in clsq and op is not None):
            r = self.std_operator(e, S, F, recv)
            if r is not None:
                return r
        if 'Eigen' in clsq:
            v = self.read(S, recv)
            if n in ('x', 'y'):
                return recv.f('0' if n == 'x' else '1', tc if tc != 'o' else 'r', rt)
            if n == 'norm':
                return fn1('sqrt', add(mul(v2(v, 0), v2(v, 0)), mul(v2(v, 1), v2(v, 1))))
            if n == 'squaredNorm':
                return add(mul(v2(v, 0), v2(v, 0)), mul(v2(v, 1), v2(v, 1)))
            if n == 'dot':
                o = self.ev(A[0], S, F)
                return add(mul(v2(v, 0), v2(o, 0)), mul(v2(v, 1), v2(o, 1)))
            if n == 'normalized':
                nn = fn1('sqrt', add(mul(v2(v, 0), v2(v, 0)), mul(v2(v, 1), v2(v, 1))))
                return V2(div(v2(v, 0), nn), div(v2(v, 1), nn))
            if n in ('cast', 'eval', 'derived', 'matrix', 'array', 'noalias'):
                return recv
            if n in ('inverse', 'transpose') and v.op == 'st' and v.a[0] == 'rot':
                return st('rot', None, {'a': neg(fld(v, 'a', 'r'))})
            if n in ('angle',):
                return fld(v, 'a', 'r')
            if n in ('Zero',):
                return V2(ZERO, ZERO)
            if n == 'operator()' and len(A) == 1:
                i = self.ev(A[0], S, F)
                if isnum(i):
                    return recv.f(str(int(i.a[1])), tc, rt)
        CONT = ('std::vector', 'std::set', 'std::unordered_set', 'std::unordered_map', 'std::map', 'std::priority_queue', 'std::array', 'std::multiset', 'std::deque', 'std::queue', 'std::stack', 'std::list', 'std::initializer_list', 'std::unordered_multimap')
        if clsq in CONT or objq in CONT:
            pts = e.get('pt') or []
            vals = [self.ev(a, S, F) for a in A]
            ev = self.event('call', n, S, F, e, fn=e.get('fn'), recv=self.read(S, recv), recvlv=recv, args=vals)
            r = self.container_method(e, S, F, recv, clsq if clsq in CONT else objq, vals, A)
            if ev is not None:
                ev.res = self.read(S, r) if isinstance(r, LV) else r
                ev.extra = {'after': self.read(S, recv)}
            return r
        if n == 'operator()' and clsq in ('std::function',):
            v = self.read(S, recv)
            pts = e.get('pt') or []
            vals = [self.lvref(a, S, F) if i < len(pts) and self.p.isref(pts[i]) else self.ev(a, S, F) for i, a in enumerate(A)]
            if v.op == 'lam' and v in self.lams:
                return self.call_lambda(v, vals, S, F, e)
            return app('callfn', v, *[self.read(S, x) for x in vals], ty=tc)
        if n == 'operator()' and clsq == 'std::equal_to':
            a, b = [self.ev(x, S, F) for x in A]
            return self.compare('==', a, b) if ty(a) != 'o' else app('keq', *sorted((a, b), key=lambda t: t.id), ty='b') if a is not b else TRUE
        if n == 'operator()' and clsq in ('std::hash',):
            return app('hash', self.ev(A[0], S, F), ty='i')
        if n == 'operator()' and clsq in ('std::less', 'std::greater'):
            a, b = [self.ev(x, S, F) for x in A]
            return self.compare('<' if clsq == 'std::less' else '>', a, b)
        if op == '=' and len(A) == 1:
            v = self.ev(A[0], S, F)
            self.event('store', None, S, F, e, args=[v], recvlv=recv)
            self.write(S, recv, v)
            return recv
        # anything else
        vals = [self.ev(a, S, F) for a in A]
        rv = self.read(S, recv)
        ev = self.event('call', n, S, F, e, fn=e.get('fn'), recv=rv, recvlv=recv, args=vals)
        r = self.opaque_call(e, S, F, e.get('fn'), recv, rv, [self.lv(a, S, F, soft=True) or v for a, v in zip(A, vals)] if any(self.p.t(t)['k'] == 'ref' and not self.p.t(t)['to'].startswith('const ') for t in e.get('pt') or []) else vals, vals, pref='std:' + clsq + '::')
        if ev is not None:
            ev.res = self.read(S, r) if isinstance(r, LV) else r
        return r
    def nullmoved2(self, S, F, e, keep):
        while e['k'] in ('cast',) and e.get('e'):
            e = e['e']
        if e['k'] == 'call' and e['n'] == 'move' and e['a']:
            lv = self.lv(e['a'][0], S, F, soft=True)
            if lv is not None and not lv.same(keep):
                self.write(S, lv, NULL)
    def itderef(self, it, S, t):
        if it.op == 'vit':
            lv = self.deref(it.a[0], None)
            return LV(lv.root, lv.path + (('i', it.a[1], self.tc(t)),), t)
        if it.op == 'rit':
            lv = self.deref(it.a[0], None)
            v = self.read(S, lv)
            return LV(lv.root, lv.path + (('i', sub(sub(size(v), ONE), it.a[1]), self.tc(t)),), t)
        if it.op == 'mit':
            lv = self.deref(it.a[0], None)
            m = self.read(S, lv)
            if self.p.tq(t) == 'std::pair':
                return LV(('M', lv, it.a[1]), (), t) if False else LV(('V', st('pair', None, {'first': it.a[1], 'second': mget(m, it.a[1], self.tc((self.p.t(self.p.strip(t)).get('ta') or [None, None])[1]))})), (), t)
            return LV(('V', app('stored', m, it.a[1], ty=self.tc(t))), (), t)
        if it.op == 'sit':
            lv = self.deref(it.a[0], None)
            m = self.read(S, lv)
            return LV(('V', app('elem', m, it.a[1], ty=self.tc(t))), (), t)
        if it.op == 'ite':
            return LV(('I', it.a[0], self.itderef(it.a[1], S, t), self.itderef(it.a[2], S, t)), (), t)
        return LV(('V', app('deref', it, ty=self.tc(t))), (), t)
    def container_method(self, e, S, F, lv, q, vals, A):
        n = e['n']
        tc = self.tc(e.get('t'))
        rt = self.p.strip(e.get('t') or '')
        v = self.read(S, lv)
        seq = q in ('std::vector', 'std::array', 'std::deque', 'std::list', 'std::initializer_list')
        p = self.addrc(lv)
        d = self.p.t(self.p.strip(lv.t or e.get('objt') or ''))
        et = (d.get('ta') or [None])[0]
        def store(nv):
            self.write(S, lv, nv)
        if n in ('size', 'length'):
            return size(v)
        if n == 'empty':
            return zero(size(v)) if v.op != 'emp' else TRUE
        if n in ('reserve', 'shrink_to_fit'):
            return raw('void')
        if n == 'clear':
            store(raw('vec') if seq else raw('emp'))
            return raw('void')
        if n == 'operator=':
            self.event('store', None, S, F, e, args=[vals[0]], recvlv=lv)
            store(vals[0])
            return lv
        if n == 'swap':
            o = self.lv(A[0], S, F)
            vo = self.read(S, o)
            self.write(S, o, v)
            self.write(S, lv, vo)
            return raw('void')
        if seq:
            if n in ('operator[]', 'at'):
                r = lv.i(vals[0], tc, rt)
                self.event('index', '[]', S, F, e, args=[vals[0]], recvlv=r, extra={'vec': True})
                return r
            if n in ('back', 'front'):
                i = sub(size(v), ONE) if n == 'back' else ZERO
                return lv.i(i, tc, rt)
            if n == 'data':
                return raw('addr', lv.root, lv.path + (('i', ZERO, 'o'),), '')
            if n in ('push_back', 'emplace_back'):
                x = self.elem_value(S, F, e, et, vals, A)
                if A and self.p.issmart(et or '') and len(A) == 1:
                    self.nullmoved2(S, F, A[0], lv)
                store(push(v, x))
                if n == 'emplace_back':
                    return lv.i(size(v), self.tc(et), et)
                return raw('void')
            if n == 'pop_back':
                store(vpop(v))
                return raw('void')
            if n == 'resize':
                fillv = vals[1] if len(vals) > 1 else ({'i': ZERO, 'r': ZERO, 'b': FALSE, 'p': NULL}.get(self.tc(et)) or raw('uninit', 'elem'))
                if v.op == 'vec' and not v.a:
                    store(raw('fill', vals[0], fillv))
                else:
                    store(raw('resize', v, vals[0], fillv))
                return raw('void')
            if n == 'fill':
                store(raw('fill', size(v), vals[0]) if v.op != 'vec' else raw('vec', *[vals[0]] * len(v.a)))
                return raw('void')
            if n in ('begin', 'cbegin'):
                return raw('vit', p, ZERO)
            if n in ('end', 'cend'):
                return raw('vit', p, size(v))
            if n in ('rbegin', 'crbegin'):
                return raw('rit', p, ZERO)
            if n in ('rend', 'crend'):
                return raw('rit', p, size(v))
            if n == 'erase':
                if v.op == 'vec' and all(x.op == 'vit' and isconst(x.a[1]) for x in vals):
                    i0 = int(cval(vals[0].a[1]))
                    i1 = int(cval(vals[1].a[1])) if len(vals) > 1 else i0 + 1
                    store(raw('vec', *(v.a[:i0] + v.a[i1:])))
                    return vals[0]
                if vals[0].op == 'vit' and len(vals) == 1:
                    store(raw('verase', v, vals[0].a[1]))
                    return vals[0]
                if len(vals) == 2 and all(x.op == 'vit' for x in vals):
                    store(raw('verange', v, vals[0].a[1], vals[1].a[1]))
                    return vals[0]
            if n in ('insert', 'emplace') and vals and vals[0].op == 'vit':
                if len(vals) == 2:
                    if vals[0].a[1] is size(v):
                        store(push(v, vals[1]))
                    else:
                        store(raw('vins', v, vals[0].a[1], vals[1]))
                    return vals[0]
                if len(vals) == 3 and vals[1].op in ('vit', 'rit') and vals[2].op == vals[1].op:
                    src = self.read(S, self.deref(vals[1].a[0], None))
                    store(raw('vcat', v, vals[0].a[1], src, const(vals[1].op), vals[1].a[1], vals[2].a[1]))
                    return vals[0]
            # an iterator whose position is not followed: some position of this vector
            if n == 'erase' and len(vals) == 1 and vals[0].op not in ('vit', 'rit', 'unk'):
                store(raw('verase', v, itpos(vals[0])))
                return vals[0]
            if n in ('insert', 'emplace') and len(vals) == 2 and vals[0].op not in ('vit', 'rit', 'unk') and q == 'std::vector':
                store(raw('vins', v, itpos(vals[0]), vals[1]))
                return raw('vit', p, itpos(vals[0]))
            if n == 'assign' and len(vals) == 2 and ty(vals[0]) == 'i':
                store(raw('fill', vals[0], vals[1]))
                return raw('void')
        elif q in ('std::priority_queue', 'std::queue', 'std::stack'):
            if n in ('push', 'emplace'):
                x = self.elem_value(S, F, e, et, vals, A)
                store(raw('qpush', v, x))
                return raw('void')
            if n == 'pop':
                store(raw('qpop', v))
                return raw('void')
            if n in ('top', 'front'):
                return LV(('V', app('qtop', v, ty=tc)), (), rt)
        else:
            ismap = 'map' in q
            if n in ('insert', 'emplace'):
                if ismap:
                    if len(vals) == 2:
                        k, x = vals
                    else:
                        k = fld(vals[0], 'first', self.tc(et))
                        x = fld(vals[0], 'second', self.tc((d.get('ta') or [None, None])[1]))
                    h = mhas(v, k)
                    store(raw('ins', v, k, x))
                else:
                    k = vals[-1] if vals else unk('ins')
                    if vals and vals[0].op in ('sit', 'mit', 'mend') and len(vals) == 2 and vals[1].op == vals[0].op:
                        store(app('insrange', v, *vals, ty='o'))
                        return raw('void')
                    h = mhas(v, k)
                    store(raw('ins', v, k, k))
                return st('pair', None, {'first': raw('mit', p, k, TRUE), 'second': not_(h)})
            if n == 'erase':
                if vals[0].op == 'mit':
                    store(raw('del', v, vals[0].a[1]))
                    return vals[0]
                if vals[0].op == 'sit':
                    k = app('elem', v, vals[0].a[1], ty=self.tc(et))
                    store(raw('del', v, k))
                    return vals[0]
                if vals[0].op == 'ite':
                    store(app('delit', v, vals[0], ty='o'))
                    return unk('erase')
                h = mhas(v, vals[0])
                store(raw('del', v, vals[0]))
                return ite(h, ONE, ZERO)
            if n in ('find', 'lower_bound', 'upper_bound'):
                if n == 'find':
                    return raw('mit', p, vals[0], mhas(v, vals[0]))
                return raw('mit', p, app(n, v, vals[0], ty='o'), app('has' + n, v, vals[0], ty='b'))
            if n in ('count', 'contains'):
                h = mhas(v, vals[0])
                return h if n == 'contains' else ite(h, ONE, ZERO)
            if n in ('operator[]', 'at'):
                return lv.k(vals[0], tc, rt)
            if n in ('end', 'cend'):
                return raw('mend', p)
            if n in ('begin', 'cbegin'):
                return raw('sit', p, ZERO)
            if n in ('rbegin',):
                return raw('sit', p, sub(size(v), ONE))
        self.notes.append('unmodelled %s::%s' % (q, n))
        if not e.get('cst'):
            store(unk(q + '::' + n))
        return unk(q + '::' + n)
    def elem_value(self, S, F, e, et, vals, A):
        if e['n'] == 'push_back' or e['n'] == 'push':
            return vals[0]
        if len(vals) == 1:
            a0 = A[0].get('t') or ''
            if self.tc(et) != 'o' or self.p.reckey(self.p.strip(a0)) == self.p.reckey(et or ''):
                return vals[0]
        rk = self.p.reckey(et or '') or et
        cand = [(k, f) for k, f in self.p.F.items() if f.get('kind') == 'ctor' and f.get('cls') == rk and len(f.get('ps', [])) == len(vals)]
        if len(cand) == 1:
            root = ('T', F.id, self.nodeid(F, e))
            S.mem[root] = raw('st', rk, None, ())
            self.inline(S, F, cand[0][0], cand[0][1], self.addr(LV(root, (), et)), list(vals), e, rk)
            return S.mem[root]
        q = self.p.tq(et or '')
        if q.startswith('Eigen') and len(vals) == 2:
            return V2(*vals)
        if q == 'std::pair' and len(vals) == 2:
            return st('pair', None, {'first': vals[0], 'second': vals[1]})
        if q == 'std::tuple':
            return tup(*vals)
        return app('new:' + str(rk), *vals, ty='o')

    # ------------------------------------------------------------------ statements
    def ex(self, s, S, F):
        """execute statement s in S (modified in place); returns the state that falls through, or None"""
        if s is None:
            return S
        self.steps += 1
        if self.steps > self.budget:
            raise Undecided('analysis budget exhausted')
        return getattr(self, 's_' + s['k'], self.s_unk)(s, S, F)
    def s_unk(self, s, S, F):
        self.notes.append('statement ' + s['k'])
        return S
    def s_nop(self, s, S, F):
        return S
    def s_block(self, s, S, F):
        for x in s['b']:
            if x is None:
                continue
            S = self.ex(x, S, F)
            if S is None:
                return None
        return S
    def s_expr(self, s, S, F):
        e = s['e']
        if e is None:
            return S
        self.ev(e, S, F) if e['k'] not in ('un', 'assign', 'call') else self.evx(e, S, F)
        return None if S.infeasible() else S
    def evx(self, e, S, F):
        """evaluate for effects"""
        m = getattr(self, 'e_' + e['k'])
        self.steps += 1
        return m(e, S, F)
    def s_decl(self, s, S, F):
        for d in s['d']:
            if d is None or 'id' not in d:
                continue
            t = d['t']
            init = d.get('init')
            if d.get('binds') is not None:
                self.bind(d, S, F)
                continue
            if d.get('static'):
                root = ('G', 'static:' + d['n'], self.tc(t))
                F.refs[d['id']] = LV(root, (), self.p.strip(t))
                if init is not None and d.get('cexpr') and root not in S.mem:
                    S.mem[root] = self.ev(init, S, F)
                elif init is not None:
                    self.ev(init, S, F)
                continue
            if self.p.isref(t):
                if init is not None:
                    F.refs[d['id']] = self.lvref(init, S, F)
                continue
            root = ('L', F.id, d['id'])
            self.ltype[root] = self.tc(t)
            lv = LV(root, (), t)
            F.refs.pop(d['id'], None)
            for w in self.wlog:
                w.append((root, ('decl',)))
            if init is not None:
                if init['k'] == 'ctor' and self.is_repo_ctor(init):
                    S.mem[root] = raw('st', self.p.reckey(self.p.strip(t)) or t, None, ())
                    self.construct(S, F, lv, init)
                else:
                    v = self.ev(init, S, F)
                    S.mem[root] = v
            else:
                dv = self.default_value(S, F, t)
                S.mem[root] = dv if dv is not None else raw('uninit', '%s#%d' % (d['n'], F.id))
            if S.infeasible():
                return None
            q = self.p.tq(t)
            if q.startswith('std::lock_guard') or q.startswith('std::unique_lock') or q.startswith('std::scoped_lock'):
                self.event('lock', q, S, F, d, args=[S.mem[root]])
        return None if S.infeasible() else S
    def bind(self, d, S, F):
        init = d.get('init')
        t = d['t']
        if self.p.isref(t):
            lv = self.lvref(init, S, F)
        else:
            root = ('L', F.id, d['id'])
            S.mem[root] = self.ev(init, S, F)
            lv = LV(root, (), t)
        q = self.p.tq(t) or self.p.tq(init.get('t') or '')
        for i, b in enumerate(d['binds']):
            bt = b.get('t')
            if q == 'std::pair':
                name = ('first', 'second')[i]
            elif q == 'std::tuple':
                name = str(i)
            elif q == 'std::array':
                F.refs[b['id']] = lv.i(const(i), self.tc(bt), self.p.strip(bt))
                continue
            else:
                rk = self.p.reckey(self.p.strip(t)) or self.p.reckey(self.p.strip(init.get('t') or ''))
                fs = self.p.fields(rk)
                name = fs[i]['n'] if i < len(fs) else str(i)
            F.refs[b['id']] = lv.f(name, self.tc(bt), self.p.strip(bt or ''))
    def s_if(self, s, S, F):
        if s.get('init'):
            S = self.ex(s['init'], S, F)
            if S is None:
                return None
        if s.get('cv'):
            S = self.ex(s['cv'] if s['cv'].get('k') else {'k': 'decl', 'd': [s['cv']]}, S, F)
            if S is None:
                return None
        c = self.cond(s['c'], S, F)
        if S.infeasible():
            return None
        if c is not TRUE and c is not FALSE:
            if entails_lit(S.guard, c):
                c = TRUE
            elif entails_lit(S.guard, not_(c)):
                c = FALSE
        if c is TRUE:
            return self.ex(s['then'], S, F)
        if c is FALSE:
            return self.ex(s.get('else'), S, F) if s.get('else') else S
        Sa, Sb = S.fork(c), S.fork(not_(c))
        a = self.ex(s['then'], Sa, F)
        b = self.ex(s['else'], Sb, F) if s.get('else') else Sb
        m, _ = self.merge([(a, None), (b, None)])
        return m
    def s_return(self, s, S, F):
        v = None
        if s.get('e') is not None:
            if F.rt and self.p.isref(F.rt):
                v = self.lvref(s['e'], S, F)
            else:
                v = self.ev(s['e'], S, F)
            if S.infeasible():
                return None
        self.event('return', F.fn.get('n'), S, F, s, args=[self.read(S, v)] if v is not None else [], extra={'depth': F.depth, 'fn': F.key})
        F.returns.append((S, v))
        return None
    def s_break(self, s, S, F):
        F.breaks[-1].append((S, None))
        return None
    def s_continue(self, s, S, F):
        F.conts[-1].append((S, None))
        return None
    def s_try(self, s, S, F):
        return self.ex(s.get('body') or s.get('b'), S, F)
    def s_unkstmt(self, s, S, F):
        self.notes.append('unknown statement')
        return S
    def s_switch(self, s, S, F):
        if s.get('init'):
            S = self.ex(s['init'], S, F)
        c = self.ev(s['c'], S, F)
        items = s['items']
        vals = []
        for it in items:
            if it['k'] == 'case':
                v = self.ev(it['v'], S, F) if isinstance(it['v'], dict) else const(it['v'])
                vals.append(v)
        conds = {}
        F.breaks.append([])
        cur = None
        used = []
        seen_default = any(it['k'] == 'default' for it in items)
        if isnum(c):
            cur = None
            match = any(v is c for v in vals)
            on = False
            vi = 0
            cur = S
            for it in items:
                if it['k'] == 'case':
                    if vals[vi] is c:
                        on = True
                    vi += 1
                elif it['k'] == 'default':
                    if not match:
                        on = True
                elif on and cur is not None:
                    cur = self.ex(it, cur, F)
            br = F.breaks.pop()
            if not on:
                return S
            m, _ = self.merge(br + ([(cur, None)] if cur is not None else []))
            return m
        vi = 0
        pend = []
        none = [not_(eq(c, v)) for v in vals]
        for it in items:
            if it['k'] == 'case':
                pend.append(eq(c, vals[vi]))
                vi += 1
                continue
            if it['k'] == 'default':
                pend.append(and_(*none))
                continue
            if pend:
                # consecutive labels
                lab = or_(*pend)
                Sx = S.fork(lab)
                pend = []
                if cur is not None:
                    cur, _ = self.merge([(cur, None), (Sx, None)])
                else:
                    cur = Sx
            if cur is not None:
                cur = self.ex(it, cur, F)
        br = F.breaks.pop()
        outs = list(br)
        if pend:
            Sx = S.fork(or_(*pend))
            if cur is not None:
                cur, _ = self.merge([(cur, None), (Sx, None)])
            else:
                cur = Sx
        if cur is not None:
            outs.append((cur, None))
        if not seen_default:
            outs.append((S.fork(and_(*none)), None))
        m, _ = self.merge(outs)
        return m

    # ------------------------------------------------------------------ loops
    def s_while(self, s, S, F):
        return self.loop(s, S, F, 'while')
    def s_do(self, s, S, F):
        return self.loop(s, S, F, 'do')
    def s_for(self, s, S, F):
        if s.get('init'):
            S = self.ex(s['init'], S, F)
            if S is None:
                return None
        return self.loop(s, S, F, 'for')
    def s_rfor(self, s, S, F):
        if s.get('init'):
            S = self.ex(s['init'], S, F)
        rlv = self.lvref(s['range'], S, F)
        return self.loop(s, S, F, 'rfor', rlv)
    def iteration(self, s, S, F, kind, rlv, L, k):
        """one iteration from head state S; k: iteration index term for range loops.
        Returns (normal-exit state or None, back-edge state or None, breaks, condition)"""
        exit_ = None
        c = TRUE
        if kind == 'rfor':
            cont = self.read(S, rlv)
            n = size(cont)
            c = lt(k, n)
            if c is FALSE:
                return S, None, [], c
            if c is not TRUE:
                exit_ = S.fork(not_(c))
                S.assume(c)
            d = s['var']
            q = self.p.tq(rlv.t or s.get('rt') or '')
            t = d['t']
            et = self.p.strip(t)
            if q in ('std::set', 'std::unordered_set', 'std::unordered_map', 'std::map'):
                el = LV(('V', app('elem', cont, k, ty=self.tc(et))), (), et)
            else:
                el = LV(rlv.root, rlv.path + (('i', k, self.tc(et)),), et)
            if d.get('binds') is not None:
                self.bind(dict(d, init={'k': 'lvhold', 'lv': el, 't': et}), S, F)
            elif self.p.isref(t):
                F.refs[d['id']] = el
            else:
                F.refs.pop(d['id'], None)
                for w in self.wlog:
                    w.append((('L', F.id, d['id']), ('decl',)))
                S.mem[('L', F.id, d['id'])] = self.read(S, el)
        elif kind != 'do':
            if s.get('cv'):
                S = self.ex(s['cv'] if s['cv'].get('k') else {'k': 'decl', 'd': [s['cv']]}, S, F)
            if s.get('c') is not None:
                c = self.cond(s['c'], S, F)
                if c not in (TRUE, FALSE):
                    if entails_lit(S.guard, c):
                        c = TRUE
                    elif L is None:
                        c = self.settle(c, S)
                if c is FALSE:
                    return S, None, [], c
                if c is not TRUE:
                    exit_ = S.fork(not_(c))
                    S.assume(c)
        F.breaks.append([])
        F.conts.append([])
        end = self.ex(s['body'], S, F)
        br = F.breaks.pop()
        co = F.conts.pop()
        if end is not None:
            co = co + [(end, None)]
        back, _ = self.merge(co)
        if back is not None and kind == 'for' and s.get('inc') is not None:
            self.evx(s['inc'], back, F) if s['inc']['k'] in ('un', 'assign', 'call') else self.ev(s['inc'], back, F)
        if back is not None and kind == 'do':
            c = self.cond(s['c'], back, F)
            if c is FALSE:
                return back, None, br, c
            if c is not TRUE:
                exit_ = back.fork(not_(c))
                back.assume(c)
        return exit_, back, br, c
    def e_lvhold(self, e, S, F):
        return e['lv']
    def mark(self, F):
        return (len(self.events), len(F.returns), self.seq, len(self.notes))
    def rewind(self, F, m):
        del self.events[m[0]:]
        del F.returns[m[1]:]
        self.seq = m[2]
        del self.notes[m[3]:]
    def loop(self, s, S, F, kind, rlv=None):
        # 1. full unrolling when every condition is a constant
        r = self.unroll(s, S, F, kind, rlv)
        if r is not NotImplemented:
            return r
        # 2. one generic iteration
        L = self.ctx + ('%d.%d' % (F.id, self.nodeid(F, s)),)
        k = raw('iv', L)
        M = {}
        ind = {}
        rep = 0
        saved = self.ctx
        self.ctx = L
        refs0 = dict(F.refs)
        frozen, banned = set(), set()          # written in the loop, but never on a way round it
        live = lambda M: thaw(M, frozen)
        try:
            for rep in range(16):
                m = self.mark(F)
                head = self.head(S, live(M), ind, L)
                self.quiet += 1
                w = []
                self.wlog.append(w)
                h0 = head.fork()
                try:
                    ex_, back, br, c = self.iteration(s, head, F, kind, rlv, L, k)
                finally:
                    self.quiet -= 1
                    self.wlog.remove(w) if False else self.wlog.pop()
                self.rewind(F, m)
                M2 = self.locations(w, S, L, M)
                if M2 != M:
                    M = M2
                    continue
                # induction variables
                new = dict(ind)
                if back is not None:
                    for loc in self.locs(M):
                        if loc[0] == 'C':
                            continue
                        phi = self.phi(L, loc, S)
                        if loc in frozen:
                            continue
                        if phi is None or loc in ind:
                            if loc in ind:
                                cur = self.readloc(back, loc)
                                hv = self.readloc(h0, loc)
                                st_ = self.stepof(cur, hv)
                                if st_ is None or st_ is not ind[loc]:
                                    new[loc] = False
                            continue
                        cur = self.readloc(back, loc)
                        hv = self.readloc(h0, loc)
                        d = self.stepof(cur, hv)
                        if d is not None and not variant(d, L):
                            new[loc] = d
                new = {a: b for a, b in new.items() if b is not False or True}
                if new != ind:
                    ind = new
                    continue
                fr = set()
                for loc in self.locs(M):
                    if loc in banned or loc in ind:
                        continue
                    if back is None:
                        fr.add(loc)
                    elif loc[0] == 'C':
                        c_ = loc[1]
                        if (back.H.get(c_) or raw('H0', c_)) is (h0.H.get(c_) or raw('H0', c_)):
                            fr.add(loc)
                    elif self.readloc(back, loc) is self.readloc(h0, loc):
                        fr.add(loc)
                if rep < 14 and fr != frozen:
                    banned |= frozen - fr
                    frozen = (frozen & fr) if frozen - fr else fr
                    continue
                if fr != frozen:
                    frozen = set()
                break
            # 3. final run with events
            head = self.head(S, live(M), ind, L)
            lp = Loop(L)
            lp.node, lp.file, lp.line = s, F.fn.get('file'), s.get('l')
            lp.headguard = head.guard
            lp.ind = ind
            lp.head = head.fork()
            lp.pre = S.fork()
            lp.M = M
            for loc in self.locs(M):
                if loc[0] != 'C':
                    lp.init[loc] = self.readloc(S, loc)
                    lp.phi[loc] = self.readloc(head, loc)
            if rlv is not None:
                lp.range = self.read(head, rlv)
            if not self.quiet:
                self.loops[L] = lp
            nret = len(F.returns)
            n0 = len(head.guard)
            ex_, back, br, c = self.iteration(s, head, F, kind, rlv, L, k)
            lp.cond = c
            if back is not None:
                lp.back = back
                lp.backguard = back.guard
                for loc in lp.init:
                    lp.next[loc] = self.readloc(back, loc)
        finally:
            self.ctx = saved
        # 4. exits
        early = [(st_, ('break', None)) for st_, _ in br] + [(st_, ('return', v)) for st_, v in F.returns[nret:]]
        early = [(a, b) for a, b in early if not a.infeasible()]
        lits = []
        conds = []
        for st_, _ in early:
            conds.append(and_(*st_.guard[n0:]))
        A = None
        if early and ex_ is not None:
            form = not_(or_(*conds))
            if not variant_other(form, L):
                A = raw('forall', subst(form, {k: raw('iv', ('#',))}))
            else:
                A = raw('allpass', L)
            lp.allpass = A
            lp.pass_form = form
            for st_, _ in early:
                st_.guard = st_.guard[:n0] + (not_(A),) + st_.guard[n0:]
            ex_.guard = ex_.guard[:n0] + (A,) + ex_.guard[n0:]
        lp.exits = [(b[0], a) for a, b in early] + ([('normal', ex_)] if ex_ is not None else [])
        outs = [(st_, None) for st_, _ in br]
        if ex_ is not None:
            outs.append((ex_, None))
        r, _ = self.merge(outs)
        return r
    def stepof(self, cur, hv):
        if cur.op == hv.op and cur.op in ('vit', 'rit', 'sit'):
            if cur.a[0] is not hv.a[0]:
                return None
            return sub(cur.a[1], hv.a[1])
        if ty(hv) in ('i', 'r') and ty(cur) in ('i', 'r') and not isinf(cur) and not isinf(hv):
            return sub(cur, hv)
        return None
    def settle(self, c, S):
        """a condition decided by the facts known here"""
        if c in (TRUE, FALSE) or not S.guard:
            return c
        if contains_op(c, ('cos', 'sin', 'iv', 'ite')):
            return c
        key = (c, tuple(S.guard))
        if key in self.settled:
            return self.settled[key]
        mine = {x for x in subterms(c) if x.op == 'sym'}
        near = []
        for l in literals(S.guard):
            if l.op in ('or', 'ite') or len(near) >= 12:
                continue
            if any(x in mine for x in subterms(l)):
                near.append(l)
        r = c
        if near:
            if entails(tuple(near), c, 0):
                r = TRUE
            elif entails(tuple(near), not_(c), 0):
                r = FALSE
        self.settled[key] = r
        return r
    def unroll(self, s, S, F, kind, rlv):
        c0 = None
        if kind == 'rfor':
            v = self.read(S, rlv)
            if v.op != 'vec' or len(v.a) > min(48, self.unrollmax):
                return NotImplemented
            if not v.a:
                return S
        elif kind == 'do':
            pass
        else:
            if s.get('c') is None:
                return NotImplemented
            if s['c']['k'] == 'const':
                return NotImplemented
            self.quiet += 1
            m = self.mark(F)
            try:
                c0 = self.cond(s['c'], S.fork(), F)
            finally:
                self.quiet -= 1
                self.rewind(F, m)
            c0 = self.settle(c0, S)
            if c0 is FALSE:
                return self.iteration(s, S, F, kind, rlv, None, ZERO)[0]
            if c0 is not TRUE:
                return NotImplemented
        m = self.mark(F)
        cur = S.fork()
        outs = []
        lim = self.unrollmax
        lens = [len(w) for w in self.wlog]
        for i in range(lim):
            self.unr.append(i)
            try:
                ex_, back, br, c = self.iteration(s, cur, F, kind, rlv, None, const(i))
            finally:
                self.unr.pop()
            if c not in (TRUE, FALSE):
                break
            outs.extend(br)
            if ex_ is not None:
                outs.append((ex_, None))
            if back is None:
                r, _ = self.merge(outs)
                return r
            cur = back
            if kind == 'rfor' and i + 1 >= len(self.read(cur, rlv).a if self.read(cur, rlv).op == 'vec' else ()):
                if self.read(cur, rlv).op != 'vec':
                    break
                outs.append((cur, None))
                r, _ = self.merge(outs)
                return r
        self.rewind(F, m)
        for w, n in zip(self.wlog, lens):
            del w[n:]
        return NotImplemented
    def locs(self, M):
        for root, paths in sorted(M.items(), key=lambda x: str(x[0])):
            if root[0] == 'C':
                yield ('C',) + root[1:]
                continue
            for p in sorted(paths, key=str):
                yield (root, p)
    def readloc(self, S, loc):
        v = self.base(S, loc[0])
        return getpath(v, loc[1])
    def phi(self, L, loc, S):
        root, path = loc
        tc = path[-1][2] if path else None
        if tc is None:
            v = self.base(S, root)
            tc = self.ltype.get(root) or ty(v)
            if v.op == 'uninit' and root not in self.ltype:
                tc = 'o'
        return raw('phi', (L, root, path), tc if tc in ('i', 'r', 'b', 'p', 'o') else 'o')
    def head(self, S, M, ind, L):
        h = S.fork()
        for root, paths in M.items():
            if root[0] == 'C':
                cls = root[1]
                F1, F2 = paths
                base = h.H.get(cls) or raw('H0', cls)
                h.H[cls] = raw('hphi', L, cls, base, tuple(sorted(F1)), tuple(sorted(F2)))
        for root, paths in M.items():
            if root[0] == 'C':
                continue
            for p in sorted(paths, key=str):
                v0 = getpath(self.base(S, root), p)
                d = ind.get((root, p))
                ph = self.phi(L, (root, p), S)
                if v0.op in ('vit', 'rit', 'sit') and not variant(v0.a[0], L):
                    if d:
                        nv = raw(v0.op, v0.a[0], add(v0.a[1], mul(d, raw('iv', L))))
                    elif d is False:
                        nv = ph
                    else:
                        nv = raw(v0.op, v0.a[0], raw('phi', (L, root, p + ('idx',)), 'i'))
                elif d not in (None, False):
                    nv = add(v0, mul(d, raw('iv', L)))
                else:
                    nv = ph
                b = self.base(h, root)
                b2 = setpath(b, p, nv)
                if root[0] == 'O':
                    cls = root[2]
                    h.H[cls] = hset(h.H.get(cls) or raw('H0', cls), root[1], b2)
                else:
                    h.mem[root] = b2
        return h
    def locations(self, w, S, L, M):
        out = {}
        declared = set()
        for root, p in w:
            if p == ('decl',):
                declared.add(root)
        cl = {}
        for root, p in w:
            if p == ('decl',):
                continue
            if root[0] in ('L', 'T') and (root not in S.mem):
                continue
            if root in declared and root[0] in ('L', 'T'):
                # re-declared inside the body: not loop-carried, unless it also existed before (same frame reused)
                continue
            # cut the path at the first loop-variant index
            q = []
            for el in p:
                if el[0] in ('i', 'k') and variant(el[1], L):
                    break
                q.append(el)
            q = tuple(q)
            if root[0] == 'O':
                ptr, cls = root[1], root[2]
                if variant(ptr, L):
                    fresh = ptr.op == 'alloc' and ptr.a[1][:len(L)] == L
                    f = q[0][1] if q and q[0][0] == 'f' else '*all'
                    cl.setdefault(cls, (set(), set()))[1 if fresh else 0].add(f)
                    continue
            out.setdefault(root, set()).add(q)
        # exact locations of a class that is also written through unknown pointers join the class summary
        for root in list(out):
            if root[0] == 'O' and root[2] in cl and cl[root[2]][0]:
                for q in out.pop(root):
                    cl[root[2]][0].add(q[0][1] if q and q[0][0] == 'f' else '*all')
        for root, ps in M.items():
            if root[0] == 'C':
                a, b = cl.setdefault(root[1], (set(), set()))
                a |= set(ps[0]); b |= set(ps[1])
            else:
                if root[0] == 'O' and root[2] in cl and cl[root[2]][0]:
                    for q in ps:
                        cl[root[2]][0].add(q[0][1] if q and q[0][0] == 'f' else '*all')
                else:
                    out.setdefault(root, set()).update(ps)
        for root in out:
            ps = sorted(out[root], key=len)
            keep = []
            for p in ps:
                if not any(p[:len(k)] == k for k in keep):
                    keep.append(p)
            out[root] = frozenset(keep)
        for cls, (a, b) in cl.items():
            out[('C', cls)] = (frozenset(a), frozenset(b))
        return out

# ---------------------------------------------------------------------- helpers
def ext(lv, path, t):
    return LV(lv.root, lv.path + path, t if path else lv.t)

def getpath(v, path):
    for el in path:
        if el[0] == 'f':
            v = fld(v, el[1], el[2])
        elif el[0] == 'i':
            v = vget(v, el[1], el[2])
        elif el[0] == 'k':
            v = mget(v, el[1], el[2])
    return v

def setpath(v, path, val):
    if not path:
        return val
    el, rest = path[0], path[1:]
    if el[0] == 'f':
        return setfld(v, '', el[1], setpath(fld(v, el[1], el[2]), rest, val) if rest else val)
    if el[0] == 'i':
        return vset(v, el[1], setpath(vget(v, el[1], el[2]), rest, val) if rest else val)
    return raw('mset', v, el[1], setpath(mget(v, el[1], el[2]), rest, val) if rest else val)

def padd(p, i):
    if i is ZERO:
        return p
    if p.op == 'padd':
        return padd(p.a[0], add(p.a[1], i))
    if p.op == 'addr' and p.a[1] and p.a[1][-1][0] == 'i':
        l = p.a[1][-1]
        return raw('addr', p.a[0], p.a[1][:-1] + (('i', add(l[1], i), l[2]),), p.a[2])
    if p.op == 'ite':
        return ite(p.a[0], padd(p.a[1], i), padd(p.a[2], i))
    return raw('padd', p, i)

def hget(H, p):
    if p.op == 'ite':
        return ite(p.a[0], hget(H, p.a[1]), hget(H, p.a[2]))
    if H.op == 'H0':
        return raw('obj', p)
    if H.op == 'vset':
        e = eq(H.a[1], p)
        if e is TRUE:
            return H.a[2]
        if e is FALSE:
            return hget(H.a[0], p)
        return ite(e, H.a[2], hget(H.a[0], p))
    if H.op == 'ite':
        return ite(H.a[0], hget(H.a[1], p), hget(H.a[2], p))
    return raw('vget', H, p, 'o')

def hset(H, p, v):
    if p.op == 'ite':
        a = hset(H, p.a[1], ite(p.a[0], v, hget(H, p.a[1])))
        return hset(a, p.a[2], ite(p.a[0], hget(a, p.a[2]), v))
    # look for an existing entry below provably different pointers
    above = []
    x = H
    while x.op == 'vset':
        if x.a[1] is p:
            r = raw('vset', x.a[0], p, v)
            for q, u in reversed(above):
                r = raw('vset', r, q, u)
            return r
        if eq(x.a[1], p) is not FALSE:
            break
        above.append((x.a[1], x.a[2]))
        x = x.a[0]
    return raw('vset', H, p, v)

def hmerge(c, x, y):
    chain = set()
    t = x
    while True:
        chain.add(t)
        if t.op != 'vset':
            break
        t = t.a[0]
    u = y
    ptrs = []
    while u not in chain and u.op == 'vset':
        ptrs.append(u.a[1])
        u = u.a[0]
    if u not in chain:
        return raw('ite', c, x, y)
    t = x
    while t is not u:
        ptrs.append(t.a[1])
        t = t.a[0]
    r = u
    done = set()
    for p in reversed(ptrs):
        if p in done:
            continue
        done.add(p)
        v = ite(c, hget(x, p), hget(y, p))
        if v is not hget(r, p):
            r = hset(r, p, v)
    return r

def V2(x, y):
    return st('V2', None, {'0': x, '1': y})
def v2(v, i):
    return fld(v, str(i), 'r')
def is_v2(v):
    return v.op == 'st' and v.a[0] == 'V2'

def itpos(t):
    """position of a vector iterator"""
    if t.op == 'vit':
        return t.a[1]
    if t.op == 'ite':
        return ite(t.a[0], itpos(t.a[1]), itpos(t.a[2]))
    return app('itidx', t, ty='i')
def thaw(M, frozen):
    if not frozen:
        return M
    out = {}
    for root, paths in M.items():
        if root[0] == 'C':
            if ('C',) + root[1:] not in frozen:
                out[root] = paths
            continue
        ps = type(paths)(p for p in paths if (root, p) not in frozen)
        if ps:
            out[root] = ps
    return out
def vpop(v):
    if v.op == 'push':
        return v.a[0]
    if v.op == 'vec' and v.a:
        return raw('vec', *v.a[:-1])
    if v.op == 'ite':
        return ite(v.a[0], vpop(v.a[1]), vpop(v.a[2]))
    return raw('vpop', v)

def keyeq(a, b):
    if a is b:
        return TRUE
    if ty(a) in ('i', 'r', 'b') and ty(b) in ('i', 'r', 'b'):
        return eq(a, b)
    return app('keq', *sorted((a, b), key=lambda t: t.id), ty='b')

def mhas(m, k):
    if m.op == 'emp':
        return FALSE
    if m.op in ('ins', 'mset'):
        e = keyeq(m.a[1], k)
        return or_(e, mhas(m.a[0], k))
    if m.op == 'del':
        return and_(not_(keyeq(m.a[1], k)), mhas(m.a[0], k))
    if m.op == 'ite':
        return ite(m.a[0], mhas(m.a[1], k), mhas(m.a[2], k))
    return raw('has', m, k)

def mget(m, k, tc='o'):
    if m.op == 'mset':
        e = keyeq(m.a[1], k)
        return ite(e, m.a[2], mget(m.a[0], k, tc)) if e is not TRUE else m.a[2]
    if m.op == 'ins':
        e = keyeq(m.a[1], k)
        h = mhas(m.a[0], k)
        if e is TRUE:
            return ite(h, mget(m.a[0], k, tc), m.a[2])
    if m.op == 'ite':
        return ite(m.a[0], mget(m.a[1], k, tc), mget(m.a[2], k, tc))
    return raw('app', 'mget', tc, m, k)

def itcmp(op, a, b):
    if a.op == 'ite':
        return ite(a.a[0], itcmp(op, a.a[1], b), itcmp(op, a.a[2], b))
    if b.op == 'ite':
        return ite(b.a[0], itcmp(op, a, b.a[1]), itcmp(op, a, b.a[2]))
    r = None
    if a.op in ('vit', 'rit', 'sit') and a.op == b.op:
        if op in ('==', '!='):
            if b.a[1].op == 'size' or isnum(b.a[1]):
                r = not_(lt(a.a[1], b.a[1])) if contains_op(a.a[1], ('iv',)) else eq(a.a[1], b.a[1])
            else:
                r = eq(a.a[1], b.a[1])
        else:
            return {'<': lt, '<=': le}[op](a.a[1], b.a[1]) if op in ('<', '<=') else {'>': lt, '>=': le}[op](b.a[1], a.a[1])
    for x, y in ((a, b), (b, a)):
        if x.op == 'mit' and y.op == 'mend':
            r = not_(x.a[2])
    if a.op == 'sit' and b.op == 'mend' or b.op == 'sit' and a.op == 'mend':
        x = a if a.op == 'sit' else b
        r = app('atend', x, ty='b')
    if a is b:
        r = TRUE
    if r is None:
        r = raw('eq', *sorted((a, b), key=lambda t: t.id))
    return not_(r) if op == '!=' else r

_var = {}
def variant(t, L):
    """does the value depend on the iteration of loop L?"""
    k = (t, L)
    r = _var.get(k)
    if r is None:
        r = False
        if t.op == 'phi':
            r = t.a[0][0][:len(L)] == L
        elif t.op == 'iv' or t.op == 'hphi' or t.op == 'allpass':
            r = t.a[0][:len(L)] == L
        elif t.op in ('alloc', 'site'):
            r = t.a[1][:len(L)] == L
        elif t.op == 'addr':
            root = t.a[0]
            r = root[0] == 'O' and variant(root[1], L)
        if not r and t.op not in ('phi',):
            r = any(variant(x, L) for x in children(t))
        _var[k] = r
    return r

def variant_other(t, L):
    """variant in L by anything else than its iteration counter"""
    for x in subterms(t):
        if x.op == 'phi' and x.a[0][0][:len(L)] == L:
            return True
        if x.op in ('hphi', 'allpass') and x.a[0][:len(L)] == L:
            return True
        if x.op == 'iv' and x.a[0][:len(L)] == L and x.a[0] != L:
            return True
        if x.op in ('alloc', 'site') and x.a[1][:len(L)] == L:
            return True
    return False

def entails_lit(guard, c):
    if c in guard:
        return True
    if c.op == 'and':
        return all(entails_lit(guard, x) for x in c.a)
    if c.op == 'or':
        return any(x in guard for x in c.a)
    if c.op == 'nneg':
        return pos(c.a[0]) in guard
    return False
