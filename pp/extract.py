"""Runs ppdump over every translation unit of the repository and merges the result."""
import os, sys, re, json, subprocess, hashlib, glob, concurrent.futures, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PP_REPO', '/repo')
BASE = ['-std=gnu++17', '-I' + REPO + '/planner/src', '-UNDEBUG', '-include', 'cassert', '-include', 'algorithm',
        '-include', 'vector', '-include', 'string', '-include', 'cmath', '-w', '-ferror-limit=0',
        '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
PYB = ['-DPYBIND11_OVERRIDE=PYBIND11_OVERLOAD', '-DPYBIND11_OVERRIDE_PURE=PYBIND11_OVERLOAD_PURE',
       '-isystem', '/usr/include/python3.12']

class ExtractError(Exception):
    pass

def units():
    out = []
    src = sorted(glob.glob(REPO + '/planner/src/**/*.cpp', recursive=True))
    for f in src:
        rel = os.path.relpath(f, REPO)
        if rel.endswith('core/log.cpp'):
            continue            # needs spdlog, absent here and compiled out of the build
        if rel.endswith('debug/profiler.cpp'):
            out.append((rel, f, BASE + ['-DPP_ENABLE_PROFILING']))
            continue
        out.append((rel, f, BASE))
    for f in sorted(glob.glob(VERIF + '/inst/*.cpp')):
        out.append(('inst/' + os.path.basename(f), f, BASE))
    f = REPO + '/interfaces/python/src/pyplanning.cpp'
    if os.path.exists(f):
        out.append(('interfaces/python/src/pyplanning.cpp', f, BASE + PYB))
    return out

def macro_units():
    """The same sources with every diagnostic facility switched on (logging through the stub in /verif/stub)."""
    on = ['-DPP_ENABLE_ASSERT', '-DPP_ENABLE_LOG', '-DPP_ENABLE_PROFILING', '-I' + VERIF + '/stub']
    out = []
    for name, f, fl in units():
        if 'pyplanning' in name:
            continue
        out.append((name, f, [x for x in fl if x != '-DPP_ENABLE_PROFILING'] + on))
    f = REPO + '/main.cpp'
    if os.path.exists(f):
        out.append(('main.cpp', f, BASE + on))
    return out

_inc = {}
def includes(f):
    """repository files (transitively) included by f"""
    out, todo = [], [f]
    seen = set()
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.add(g)
        out.append(g)
        if g not in _inc:
            try:
                txt = open(g, errors='replace').read()
            except OSError:
                txt = ''
            _inc[g] = (re.findall(r'^[ \t]*#[ \t]*include[ \t]*["<]([^">]+)[">]', txt, re.M), txt)
        for h in _inc[g][0]:
            for d in (os.path.dirname(g), REPO + '/planner/src', REPO + '/interfaces/python/src', VERIF + '/stub', REPO):
                q = os.path.normpath(os.path.join(d, h))
                if os.path.isfile(q) and (q.startswith(REPO) or q.startswith(VERIF)):
                    todo.append(q)
                    break
    return sorted(out)

def norm(p):
    return '/repo' + p[len(REPO):] if p.startswith(REPO) else p

_self = None
def unit_hash(u):
    global _self
    if _self is None:
        _self = b''.join(open(VERIF + x, 'rb').read() for x in ('/ppdump/ppdump.cpp', '/pp/extract.py'))
    name, f, flags = u
    h = hashlib.sha256(_self)
    h.update(repr((name, [x.replace(REPO, '/repo') for x in flags])).encode())
    for g in includes(f):
        h.update(norm(g).encode()); h.update(b'\0'); h.update(_inc[g][1].encode(errors='replace')); h.update(b'\0')
    # a header that appears or disappears elsewhere can change include resolution
    return h.hexdigest()[:24]

def tool():
    r = subprocess.run([VERIF + '/ppdump/build.sh'], capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('cannot build ppdump: ' + r.stderr[-2000:])
    return os.path.join(VERIF, r.stdout.strip().split('\n')[-1])

def run(us, tag, need=None):
    """Dump the given units; returns {unit: data}."""
    t = tool()
    d = os.path.join(VERIF, 'build', 'cache')
    os.makedirs(d, exist_ok=True)
    def one(u):
        name, f, flags = u
        out = os.path.join(d, unit_hash(u) + '_' + name.replace('/', '_') + '.json')
        if not os.path.exists(out):
            tmp = out + '.%d' % os.getpid()
            r = subprocess.run([t, tmp, REPO + '/,' + VERIF + '/inst/', '--'] + flags + [f], capture_output=True, text=True)
            if not os.path.exists(tmp):
                return name, None, r.stderr[-1500:]
            txt = open(tmp).read()
            if REPO != '/repo':
                txt = txt.replace(REPO + '/', '/repo/')
            data = json.loads(txt)
            data['diag'] = r.stderr[-3000:] if r.returncode else ''
            json.dump(data, open(tmp, 'w'))
            os.rename(tmp, out)
        return name, out, ''
    res = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for name, out, err in ex.map(one, us):
            if out is None:
                raise ExtractError('cannot parse %s: %s' % (name, err))
            res[name] = json.load(open(out))
    return res
