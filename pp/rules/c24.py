"""Lockset analysis of the profiler: every access to its session and stream, every lock acquisition and every exit, with the lock state of all call contexts."""
from lib import *

TECHNIQUE = 'static analysis: interprocedural lockset (must/may-held) dataflow over the syntax tree, with call contexts'
GUARDED = ('m_currentSession', 'm_outputStream')
LOCKS = ('lock_guard', 'unique_lock', 'scoped_lock')
CLS = 'Planner::Profiler'

def mem_of(e, names, cls):
    """the member named, when e is this->member (through casts)"""
    while isinstance(e, dict) and e.get('k') in ('cast', 'paren', 'unary', 'temp', 'bind', 'clean', 'addr', 'deref'):
        e = e.get('e')
    if isinstance(e, dict) and e.get('k') == 'mem' and e.get('n') in names and e.get('cls') == cls:
        return e['n']
    return None

class Walk:
    def __init__(s, C, cls, mutex):
        s.C, s.cls, s.mutex = C, cls, mutex
        s.acc, s.call, s.acq, s.exit = [], [], [], []
        s.unknown = []
    def fn(s, f, must, may):
        s.alias, s.lockvar = {}, {}
        s.manual = (False, False)           # locked by hand: on all paths / on some path
        st = s.stmt(f.get('body'), (must, may))
        for i in f.get('inits') or []:
            pass
        if st is not None:
            s.exit.append((f.get('end') or f.get('line'), s.manual))
    # state: (must, may), None when the path has ended
    def join(s, a, b):
        if a is None: return b
        if b is None: return a
        return (a[0] and b[0], a[1] or b[1])
    def stmt(s, n, st):
        if n is None or st is None:
            return st
        if isinstance(n, list):
            for x in n:
                st = s.stmt(x, st)
            return st
        k = n.get('k')
        if k == 'block':
            names = set(s.lockvar)
            end = st
            for x in n.get('b') or []:
                end = s.stmt(x, end)
            own = [v for v in s.lockvar if v not in names]
            held = [v for v in own if s.lockvar[v] is not False]
            for v in own:
                s.lockvar.pop(v)
            if end is None:
                return None
            if held:
                return (st[0] if not s.manual[0] else True, st[1] if not s.manual[1] else True)
            return end
        if k == 'decl':
            for d in n.get('d') or []:
                st = s.decl(d, st)
            return st
        if k == 'if':
            st = s.stmt(n.get('init'), st) if n.get('init') else st
            st = s.stmt(n.get('var'), st) if isinstance(n.get('var'), dict) and n['var'].get('k') == 'decl' else st
            st = s.expr(n.get('c'), st)
            m0 = s.manual
            a = s.stmt(n.get('then'), st)
            ma = s.manual
            s.manual = m0
            b = s.stmt(n.get('else'), st)
            mb = s.manual
            s.manual = mb if a is None else ma if b is None else (ma[0] and mb[0], ma[1] or mb[1])
            return s.join(a, b)
        if k in ('for', 'while', 'do', 'rfor', 'forrange', 'foreach'):
            for f in ('init', 'c', 'range', 'var'):
                x = n.get(f)
                if isinstance(x, dict):
                    st = s.stmt(x, st) if x.get('k') in ('decl', 'expr', 'block') else s.expr(x, st)
            b = s.stmt(n.get('b') if n.get('b') is not None else n.get('body'), st)
            for f in ('inc', 'i'):
                if isinstance(n.get(f), dict) and b is not None:
                    b = s.expr(n[f], b)
            return s.join(st, b)
        if k == 'return':
            st = s.expr(n.get('e'), st)
            s.exit.append((n.get('l'), s.manual))
            return None
        if k == 'throw':
            s.exit.append((n.get('l'), s.manual))
            return None
        if k == 'expr':
            return s.expr(n.get('e'), st)
        if k == 'try':
            st = s.stmt(n.get('b'), st)
            for h in n.get('h') or []:
                s.stmt(h.get('b') if isinstance(h, dict) else h, st)
            return st
        return s.expr(n, st)
    def decl(s, d, st):
        if not isinstance(d, dict):
            return st
        i = d.get('init')
        if isinstance(i, dict) and i.get('k') == 'ctor' and i.get('n') in LOCKS:
            a = i.get('a') or []
            if a and mem_of(a[0], (s.mutex,), s.cls):
                tags = [str(x.get('t')) for x in a[1:] if isinstance(x, dict)]
                if any('defer_lock' in t for t in tags):
                    s.lockvar[d.get('id')] = False
                    return st
                if any('adopt_lock' in t for t in tags):
                    s.lockvar[d.get('id')] = True
                    s.manual = (False, False)
                    return st
                if any('try_to_lock' in t for t in tags):
                    s.unknown.append(d.get('l'))
                s.acq.append((d.get('l'), st))
                s.lockvar[d.get('id')] = True
                return (True, True)
            return st
        st = s.expr(i, st)
        t = str(d.get('t') or '')
        if t.endswith('&') or t.endswith('*'):
            m = mem_of(i, GUARDED, s.cls)
            if m:
                s.alias[d.get('id')] = m
        return st
    def expr(s, e, st):
        if e is None or st is None:
            return st
        if isinstance(e, list):
            for x in e:
                st = s.expr(x, st)
            return st
        if not isinstance(e, dict):
            return st
        k = e.get('k')
        if k in ('block', 'decl', 'if', 'for', 'while', 'do', 'return', 'expr', 'try'):
            return s.stmt(e, st)
        if k == 'lambda':
            sub_ = e.get('body') or e.get('b')
            m, lv = s.manual, dict(s.lockvar)
            ex = len(s.exit)
            s.stmt(sub_, st)
            s.exit = s.exit[:ex]
            s.manual, s.lockvar = m, lv
            return st
        if k == 'mem' and e.get('cls') == s.cls and e.get('n') in GUARDED:
            s.acc.append((e['n'], e.get('l'), st))
            return s.expr(e.get('b'), st)
        if k in ('ref', 'var', 'dref') and e.get('id') in s.alias:
            s.acc.append((s.alias[e['id']], e.get('l'), st))
            return st
        if k == 'call':
            o = e.get('obj')
            n = e.get('n')
            for x in e.get('a') or []:
                st = s.expr(x, st)
            if isinstance(o, dict) and mem_of(o, (s.mutex,), s.cls):
                if n == 'lock':
                    s.acq.append((e.get('l'), st))
                    s.manual = (True, True)
                    return (True, True)
                if n == 'unlock':
                    s.manual = (False, False)
                    return (False, False)
                if n == 'try_lock':
                    s.unknown.append(e.get('l'))
                    return (st[0], True)
            if isinstance(o, dict) and o.get('id') in s.lockvar and n in ('lock', 'unlock', 'release', 'try_lock'):
                if n == 'lock':
                    s.acq.append((e.get('l'), st))
                    s.lockvar[o['id']] = True
                    return (True, True)
                if n == 'unlock':
                    s.lockvar[o['id']] = None
                    return (False, False)
                s.unknown.append(e.get('l'))
                return st
            st = s.expr(o, st)
            if e.get('cls') == s.cls and e.get('fn'):
                s.call.append((e['fn'], e.get('l'), st))
            if n in ('lock', 'try_lock') and not o:
                s.unknown.append(e.get('l'))
            return st
        if k == 'ctor' and e.get('n') in LOCKS and e.get('a') and mem_of(e['a'][0], (s.mutex,), s.cls):
            s.acq.append((e.get('l'), st))          # a temporary: released at the end of the statement
            return st
        for f, x in sorted(e.items(), key=lambda z: z[0]):
            if isinstance(x, (dict, list)):
                st = s.expr(x, st)
        return st

def run(C):
    own = {k: f for k, f in C.P.F.items() if f.get('cls') == CLS and f.get('body') and not f.get('impl')}
    C.need(own, 'no profiler')
    mutexes = set()
    def find(x):
        if isinstance(x, dict):
            if x.get('k') == 'mem' and x.get('cls') == CLS and 'mutex' in str(x.get('t')):
                mutexes.add(x['n'])
            for y in x.values():
                find(y)
        elif isinstance(x, list):
            for y in x:
                find(y)
    for f in own.values():
        find(f.get('body'))
    if not mutexes:
        C.ob('lock', 'the profiler locks its mutex', 'planner/src/debug/profiler.cpp', False, 'no function of the profiler takes a mutex')
        return
    C.need(len(mutexes) == 1, 'several mutexes: %s' % ', '.join(sorted(mutexes)))
    mutex = mutexes.pop()
    # entry contexts: functions reachable from outside start without the lock
    outside = set()
    for k, f in C.P.F.items():
        if f.get('cls') == CLS:
            continue
        def calls(x):
            if isinstance(x, dict):
                if x.get('k') == 'call' and x.get('cls') == CLS and x.get('fn'):
                    outside.add(x['fn'])
                for y in x.values():
                    calls(y)
            elif isinstance(x, list):
                for y in x:
                    calls(y)
        calls(f.get('body'))
    todo = [(k, (False, False)) for k, f in own.items() if not f.get('prv') or f.get('kind') in ('ctor', 'dtor') or f['n'] in ('Profiler', '~Profiler') or k in outside]
    seen = set()
    n = {'acc': 0, 'acq': 0}
    while todo:
        k, st = todo.pop()
        if (k, st) in seen or k not in own:
            continue
        seen.add((k, st))
        C.analysed.add(k)
        f = own[k]
        W = Walk(C, CLS, mutex)
        W.fn(f, *st)
        w0 = C.where(k)
        ctx = '' if not st[1] else ' (called with the lock held)'
        soft = bool(W.unknown)
        for fld_, l, h in W.acc:
            n['acc'] += 1
            w = '%s:%s %s' % (rel(f['file']), l, f['q'])
            C.ob('guarded', '%s is touched only under the lock%s' % (fld_, ctx), w, True if h[0] else None if soft else False, 'the lock is not held in %s here' % f['n'])
        for l, h in W.acq:
            n['acq'] += 1
            w = '%s:%s %s' % (rel(f['file']), l, f['q'])
            C.ob('once', 'the lock is not taken by a thread that holds it%s' % ctx, w, True if not h[1] else False if h[0] and not soft else None, 'it is already held here')
        for l, m in W.exit:
            w = '%s:%s %s' % (rel(f['file']), l, f['q'])
            C.ob('released', 'the lock is released on this exit%s' % ctx, w, True if not m[1] else False if m[0] and not soft else None, 'it was taken by hand and not given back')
        for g, l, h in W.call:
            if g in own:
                todo.append((g, h))
    C.count('accesses in context', n['acc'])
    C.count('acquisitions in context', n['acq'])
    C.need(n['acc'] and n['acq'], 'nothing is accessed under the lock')
