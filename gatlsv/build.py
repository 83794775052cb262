"""Compiles harness programs against /repo's current headers: LLVM IR for the solver, a shared library for replay."""
import hashlib
import os
import re
import shutil
import subprocess
import tempfile
import threading

REPO = os.environ.get('GATLSV_REPO', '/repo')
INC = os.path.join(REPO, 'cpp', 'include')
HERE = os.path.dirname(os.path.abspath(__file__))

CLANG = ['/usr/bin/clang++-18', '-w', '-std=c++17', '--gcc-install-dir=/usr/lib/gcc/x86_64-linux-gnu/11', '-DGATL_VERIF',
         '-D__GA_EXTRA_WRITE_HPP__', '-include', os.path.join(HERE, 'pre.h'), '-I' + INC, '-I' + HERE, '-S', '-emit-llvm', '-fno-vectorize',
         '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off', '-O1', '-Wno-c++11-narrowing', '-fbracket-depth=4096',
         '-ftemplate-depth=8192', '-fmath-errno'] + ['-fno-builtin-' + f for f in ('sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'exp', 'log', 'cbrt')] + ['-fconstexpr-steps=100000000']
GXX = ['g++-11', '-std=c++17', '-D__GA_EXTRA_WRITE_HPP__', '-I' + INC, '-I' + HERE, '-w', '-O1', '-ftemplate-depth=8192', '-fPIC', '-shared', '-DGATLSV_NATIVE', '-ffp-contract=off']

PRELUDE = '''#include <gatlsv.h>
'''


class Case:
    """One harness function.

    ns      algebra namespace (ga3e, ...); header gatl/<ns>.hpp
    body    C++ statements; inputs are const pointers, outputs zero-initialised pointers
    ins     {name: ('d'|'u'|'i', count)}   double / uint64 / int64 arrays
    outs    {name: ('d'|'i', count)}
    pre     function(ctx) -> list of conditions on the inputs
    post    function(ctx) -> None, calls ctx.eq / ctx.true
    """

    def __init__(self, name, ns, body, ins, outs, post, pre=None, mode='real', tu=None, defs='', bound=80, headers=(), timeout=60,
                 tier='quick', must_return=True, decls='', what='', samples=None, weight=1):
        self.name = re.sub(r'\W', '_', name)
        self.ns = ns
        self.body = body
        self.ins = ins
        self.outs = outs
        self.pre = pre or (lambda c: [])
        self.post = post
        self.mode = mode
        self.tu = tu or ns
        self.defs = defs
        self.bound = bound
        self.headers = tuple(headers)
        self.timeout = timeout
        self.tier = tier
        self.must_return = must_return
        self.decls = decls
        self.what = what or name
        self.samples = samples
        self.weight = weight

    def sig(self):
        ps = []
        for k, (t, n) in self.ins.items():
            ps.append({'d': 'double const *', 'u': 'std::uint64_t const *', 'i': 'std::int64_t const *'}[t] + k)
        for k, (t, n) in self.outs.items():
            ps.append({'d': 'double *', 'i': 'std::int64_t *'}[t] + k)
        return ', '.join(ps)

    def cpp(self):
        args = ', '.join(list(self.ins) + list(self.outs))
        return '''%s
extern "C" void h_%s(%s) {
    using namespace %s;
%s
}
#ifdef GATLSV_NATIVE
extern "C" int n_%s(%s) { try { h_%s(%s); return 0; } catch (...) { return 1; } }
#endif
''' % (self.decls, self.name, self.sig(), self.ns, self.body, self.name, self.sig(), self.name, args)


class TU:
    def __init__(self, name, cases):
        self.name = name
        self.cases = cases
        hs = []
        for c in cases:
            for h in (c.ns,) + c.headers:
                if h.startswith('x_'):
                    h = 'spaces'
                if h not in hs and h != 'ga':
                    hs.append(h)
        pre = ''.join(sorted(set(c.defs for c in cases)))
        self.src = pre + ('#include <gatl/ga.hpp>\n' if 'ga' in [c.ns for c in cases] else '') + ''.join('#include <gatl/%s.hpp>\n' % h if h != 'spaces' else '#include <spaces.h>\n' for h in hs) + PRELUDE + '\n'.join(c.cpp() for c in cases)


class BuildResult:
    def __init__(self):
        self.ll = None
        self.so = None
        self.clang_err = None
        self.gxx_err = None


def tree_hash():
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(INC)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(p.encode())
            with open(p, 'rb') as fh:
                h.update(fh.read())
    for f in ('gatlsv.h', 'pre.h', 'spaces.h'):
        with open(os.path.join(HERE, f), 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()


def run(cmd, timeout, mem_gb=14):
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=lim)
        return p.returncode, (p.stdout + p.stderr).decode(errors='replace')
    except subprocess.TimeoutExpired:
        return -999, 'compiler timeout after %d s' % timeout


def build_one(tu, workdir, which, timeout, cache_key=None):
    """which: 'll' or 'so'; returns (path, error)"""
    out = os.path.join(workdir, '%s.%s' % (tu.name, which))
    cmd = (CLANG if which == 'll' else GXX)
    cached = None
    if cache_key:
        k = hashlib.sha256((cache_key + repr(cmd) + tu.src).encode()).hexdigest()
        cdir = os.environ['GATLSV_CACHE']
        os.makedirs(cdir, exist_ok=True)
        cached = os.path.join(cdir, k + '.' + which)
        if os.path.exists(cached):
            return cached, None
        if os.path.exists(cached + '.err'):
            return None, open(cached + '.err').read()
    src = os.path.join(workdir, tu.name + '.cpp')
    rc, msg = run(cmd + [src, '-o', out], timeout)
    if rc != 0:
        if rc == -999 or 'out of memory' in msg or 'bad_alloc' in msg or 'Killed' in msg or 'cannot allocate' in msg.lower():
            return None, 'RESOURCE ' + msg[-2000:]
        lines = [l for l in msg.split('\n') if 'error' in l]
        err = '\n'.join(lines[:6])[:3000] or msg[-2000:]
        if cached:
            open(cached + '.err', 'w').write(err)
        return None, err
    if cached:
        shutil.copy(out, cached)
    return out, None


def group(cases):
    tus = {}
    for c in cases:
        tus.setdefault(c.tu, []).append(c)
    return [TU(re.sub(r'\W', '_', k), v) for k, v in tus.items()]
