#!/usr/bin/env python3
"""mutants.py FILE [names]: development sweep.  FILE defines M = [(name, props, file, old, new[, count])]; each mutant is applied to a scratch copy of /repo and the checks are run on it."""
import sys, os, shutil, subprocess, time
G = 'cpp/include/gatl/ga/'
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for name, props, f, old, new, *n in ns['M']:
    if only and name not in only:
        continue
    c = '/tmp/mutrepo_%s' % name
    shutil.rmtree(c, ignore_errors=True)
    shutil.copytree('/repo', c, symlinks=True, ignore=shutil.ignore_patterns('_build', '.git'))
    p = os.path.join(c, G + f)
    s = open(p).read()
    k = n[0] if n else 1
    if s.count(old) != k:
        print(name, 'PATTERN count', s.count(old), flush=True); shutil.rmtree(c); continue
    open(p, 'w').write(s.replace(old, new))
    e = dict(os.environ, GATLSV_REPO=c, GATLSV_FAILFAST='1')
    e.pop('GATLSV_CACHE', None)
    for q in props.split():
        t = time.time()
        r = subprocess.run('timeout 600 ./check %s quick' % q, shell=True, cwd='/verif', env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        L = [l for l in r.stdout.splitlines() if l.startswith('  ')]
        print('%-28s %s rc=%d %.0fs %s' % (name, q, r.returncode, time.time() - t, L[0][:170] if L else r.stdout[-200:]), flush=True)
    shutil.rmtree(c)
