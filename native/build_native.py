"""compile the real library sources plus one contract file natively (real headers, GSL, boost)"""
import os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from slatvc import build as B
FLAGS = ['-std=gnu++11', '-O1', '-w', '-fopenmp', '-fPIC', '-include', 'functional', '-include', 'stdexcept', '-DBOOST_ALL_DYN_LINK', '-DVC_NATIVE']
def native(contract, out, extra=(), srcs=None, flags=()):
    os.makedirs(out, exist_ok=True)
    cache = os.path.join(B.VERIF, 'build', 'cache', B.tree_hash(), 'n' + ''.join(flags).replace('/', '_').replace('=', '_')); os.makedirs(cache, exist_ok=True)
    jobs = []; objs = []
    for s in (srcs or B.LIBSRCS):
        o = os.path.join(cache, s + '.o'); objs.append(o)
        if not os.path.exists(o): jobs.append((os.path.join(B.SRC, s + '.cpp'), o, ['-I', B.SRC]))
    for h in [contract, os.path.join(B.VERIF, 'native/vc_native.cpp')] + list(extra):
        o = os.path.join(out, os.path.basename(h) + '.o'); objs.append(o)
        jobs.append((h, o, ['-I', B.SRC, '-I', os.path.join(B.VERIF, 'contracts')]))
    def run(j):
        src, o, ex = j
        r = subprocess.run(['g++'] + FLAGS + list(flags) + ex + ['-c', src, '-o', o + '.tmp'], capture_output=True, text=True)
        if r.returncode: return '%s:\n%s' % (src, r.stderr[:3000])
        os.replace(o + '.tmp', o)
    with ThreadPoolExecutor(8) as ex:
        bad = [x for x in ex.map(run, jobs) if x]
    if bad: raise B.BuildError('\n'.join(bad))
    exe = os.path.join(out, 'native')
    r = subprocess.run(['g++', '-rdynamic', '-fopenmp', '-o', exe] + list(flags) + objs + ['-lboost_log', '-lboost_thread', '-lboost_system', '-lboost_filesystem', '-lgsl', '-lgslcblas', '-lpthread', '-ldl'], capture_output=True, text=True)
    if r.returncode: raise B.BuildError(r.stderr[:3000])
    return exe
if __name__ == '__main__':
    print(native('/verif/contracts/%s.cpp' % sys.argv[1], '/verif/build/n_' + sys.argv[1]))
