"""Value-number analysis of every state space: the terms written by EnforceBounds, returned by ValidateBounds and produced by
uniform/Gaussian sampling are compared per component with that component's own bounds, for all states and bounds (lb <= ub);
batch samplers must append exactly one such sample per requested element."""
from lib import *

UNI, GAU = 'std::uniform_real_distribution::operator()', 'std::normal_distribution::operator()'

def comps(t, v):
    """component terms of a state value of type t: {name: term}"""
    if 'Pose2' in t:
        return {'x': fld(fld(v, 'position'), '0', 'r'), 'y': fld(fld(v, 'position'), '1', 'r'), 'theta': fld(v, 'theta', 'r')}
    return {'x': fld(v, '0', 'r'), 'y': fld(v, '1', 'r')}

def dist_boxes(t):
    b = {}
    for x in subterms(t):
        if x.op == 'app' and isinstance(x.a[0], str):
            if x.a[0].endswith(UNI):
                b[x] = (0.0, 1.0)
            elif x.a[0].endswith(GAU):
                b[x] = (-6.0, 6.0)
    return b

def in_range(x, lo, hi):
    """True/False/None: lo <= x <= hi for all values with lo <= hi and every draw in its distribution's range"""
    if any(o in VAGUE + LOOPY for o in ops_of(x)):
        # library state of the generator may be loop-carried; it only feeds the draws
        pass
    g = (le(lo, hi),)
    box = dist_boxes(x)
    ok = 0
    for s in range(600):
        r = RI(s, boxes=box)
        if s % 7 == 3:
            for k in box: r.m[k] = box[k][1]
        if s % 7 == 5:
            for k in box: r.m[k] = box[k][0]
        try:
            if not all(r.ev(y) for y in g):
                continue
            v, l, h = r.ev(x), r.ev(lo), r.ev(hi)
        except (TypeError, ValueError, OverflowError):
            continue
        if not isinstance(v, (int, float)) or v != v:
            continue
        ok += 1
        if v < l - 1e-6 or v > h + 1e-6:
            return False
    return True if ok > 50 else None

def spaces(C):
    base = [r for r in C.P.R if re.match(r'Planner::StateSpace<', r)]
    C.need(base, 'Planner::StateSpace')
    out = []
    for b in base:
        for d in C.P.subclasses(b):
            if d == b or '/tests/' in (C.P.R[d].get('file') or ''):
                continue
            if C.P.methods(d, 'EnforceBounds'):
                out.append((d, b))
    C.need(out, 'a concrete state space')
    return sorted(set(out))

def methods(C, cls, base, name):
    for c in (cls, base):
        for k, f in sorted(C.P.F.items()):
            if f.get('cls') == c and f['n'] == name and f.get('body'):
                yield k, f

def run(C):
    C.assume.append('std::uniform_real_distribution(a,b) draws from [a,b); lower bounds do not exceed upper bounds; real arithmetic')
    for cls, base in spaces(C):
        T = base[len('Planner::StateSpace<'):].rsplit(',', 2)[0]
        this = sym('this', 'p')
        bnd = fld(raw('obj', this) if False else None, 'bounds') if False else None
        C.count('state spaces')
        for nm in ('EnforceBounds', 'ValidateBounds', 'SampleUniform', 'SampleGaussian'):
            n = 0
            for k, f in methods(C, cls, base, nm):
                n += 1
                w = C.where(k)
                I = C.run(k, thiscls=cls)
                o = I.read(I.S, I.deref(this, cls))
                bd = fld(o, 'bounds')
                lo, hi = comps(T, vget(bd, ZERO)), comps(T, vget(bd, ONE))
                if nm == 'EnforceBounds':
                    p = f['ps'][0]['n']
                    new = comps(T, I.read(I.S, LV(('P', p, 'o'), (), T)))
                    old = comps(T, sym(p, 'o'))
                    for c in old:
                        C.same('enforce', cls.split('::')[-1] + ' clamps ' + c + ' to its own bounds', w, new[c],
                               minmax('min', minmax('max', old[c], lo[c]), hi[c]), guard=(le(lo[c], hi[c]),))
                elif nm == 'ValidateBounds':
                    old = comps(T, sym(f['ps'][0]['n'], 'o'))
                    want = and_(*[x for c in old for x in (le(lo[c], old[c]), le(old[c], hi[c]))])
                    C.same('validate', cls.split('::')[-1] + ' accepts exactly the states within every bound', w, I.ret, want, n=60)
                elif f['ps'] and f['ps'][-1]['t'] in ('unsigned int', 'int', 'unsigned long', 'size_t', 'std::size_t') and ('vector' in C.P.F[k]['rt'] or I.ret.op in ('phi', 'vec', 'push', 'fill')):
                    d = vdesc(I, I.ret)
                    cnt = sym(f['ps'][-1]['n'], 'i')
                    ok = None
                    why = str([x[0] for x in d])
                    if len(d) == 1 and d[0][0] == 'rep':
                        if d[0][3] is None:
                            why = 'loop bound not understood'
                        else:
                            ok, _ = decide_same(d[0][3], cnt)
                            why = 'appends %s samples for %s' % (d[0][3], cnt)
                            cs = comps(T, d[0][2])
                            for c in cs:
                                C.ob('batch', '%s of every state in a batch is within its bounds' % c, w, in_range(cs[c], lo[c], hi[c]), clip(cs[c]))
                    elif all(x[0] == 'elem' for x in d):
                        ok = False
                        why = 'a batch of fixed size %d' % len(d)
                    elif any(x[0] in ('elem', 'rep') for x in d) and not any(x[0] in ('unk', 'base') for x in d):
                        cs = [x[3] if x[0] == 'rep' else ONE for x in d]
                        if None not in cs:
                            ok, _ = decide_same(add(*cs), cnt)
                        why = 'appends %s for %s' % (cs, cnt)
                    C.ob('batch', cls.split('::')[-1] + ' ' + nm + ' returns the requested number of samples', w, ok, why)
                else:
                    cs = comps(T, I.ret)
                    for c in cs:
                        C.ob('sample', '%s %s: %s within its own bounds' % (cls.split('::')[-1], nm, c), w, in_range(cs[c], lo[c], hi[c]), clip(cs[c]))
            C.need(n, '%s::%s' % (cls, nm))
        # constructors keep both bounds in place
        for k, f in sorted(C.P.F.items()):
            if f.get('kind') == 'ctor' and f.get('cls') in (cls, base) and f.get('ps'):
                I = C.run(k, opaque=('Init',))
                o = I.read(I.S, I.deref(this, f['cls']))
                bd = fld(o, 'bounds')
                nm = [p['n'] for p in f['ps']]
                want = [sym(x, 'o') for x in nm] if len(nm) == 2 else [vget(sym(nm[0], 'o'), ZERO), vget(sym(nm[0], 'o'), ONE)] if len(nm) == 1 and f['ps'][0]['n'] and 'array' in f['ps'][0]['t'] else None
                if want is None:
                    continue
                for i in (0, 1):
                    a, b = comps(T, vget(bd, const(i))), comps(T, want[i])
                    for c in a:
                        C.same('ctor', '%s: %s bound of %s is the one given' % (f['cls'], ('lower', 'upper')[i], c), C.where(k), a[c], b[c])
    # the generator draws from [0, 1]
    for k in C.func(r'Planner::Random<.*>::Init', many=True):
        I = C.run(k)
        n = 0
        for r, v in list(I.S.mem.items()):
            if r[0] == 'G' and 'niform' in r[1]:
                n += 1
                draws(C, k, v)
        C.count('generators', n)

def draws(C, k, v):
    for x in subterms(v):
        if x.op == 'app' and 'uniform_real_distribution' in str(x.a[0]) or x.op == 'st' and 'uniform_real_distribution' in str(x.a[0]):
            vals = [y for y in (x.a[2:] if x.op == 'app' else [z for _, z in x.a[2]])]
            nums = []
            for y in vals:
                if isnum(y):
                    nums.append(float(y.a[1]))
                elif y.op == 'app' and 'nextafter' in str(y.a[0]) and isnum(y.a[2]):
                    nums.append(float(y.a[2].a[1]))
                else:
                    nums.append(None)
            if nums and None not in nums:
                ok = nums[0] >= 0 and (len(nums) < 2 or nums[1] <= 1)
                C.ob('draw', 'uniform draws lie in [0, 1]', C.where(k), ok, str(nums))
