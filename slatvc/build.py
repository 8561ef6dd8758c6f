"""Compile /repo's current sources plus a harness to one LLVM module (nothing of the C++ text is rewritten)."""
import os, subprocess, hashlib, re
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SLAT_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
LL = '/usr/lib/llvm-18/bin/'
LIBSRCS = ['functions', 'relationships', 'maq', 'fragility', 'lognormaldist', 'loss_functions', 'comp_group', 'caching', 'structure', 'context']
CXX = [LL + 'clang++', '-std=gnu++11', '-O0', '-Xclang', '-disable-O0-optnone', '-S', '-emit-llvm', '-fno-discard-value-names',
       '-fno-threadsafe-statics', '-fno-builtin', '-isystem', os.path.join(VERIF, 'model/include'), '-include', 'functional', '-include', 'stdexcept', '-w']
class BuildError(Exception): pass

def tree_hash():
    h = hashlib.sha256()
    for root in (SRC, os.path.join(VERIF, 'model')):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.cpp', '.h', '.hpp', '.i', '.py')) or '/model' in d:
                    p = os.path.join(d, f); h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(repr(CXX).encode())
    return h.hexdigest()[:20]

def build(srcs, harness, out):
    os.makedirs(out, exist_ok=True)
    th = tree_hash()
    cache = os.path.join(VERIF, 'build', 'cache', th); os.makedirs(cache, exist_ok=True)
    jobs = []
    outs = []
    for s in srcs:
        o = os.path.join(cache, s + '.ll'); outs.append(o)
        if not os.path.exists(o): jobs.append((os.path.join(SRC, s + '.cpp'), o, []))
    for h in harness:
        o = os.path.join(out, os.path.basename(h) + '.ll'); outs.append(o)
        jobs.append((h, o, ['-I', SRC, '-I', os.path.join(VERIF, 'contracts')]))
    def run(j):
        src, o, extra = j
        t = o + '.tmp%d' % os.getpid()
        r = subprocess.run(CXX + extra + [src, '-o', t], capture_output=True, text=True, cwd=SRC)
        if r.returncode: return src, r.stderr
        os.replace(t, o); return None
    with ThreadPoolExecutor(8) as ex:
        bad = [x for x in ex.map(run, jobs) if x]
    if bad: raise BuildError('\n'.join('%s:\n%s' % b for b in bad)[:4000])
    al = os.path.join(out, 'all.ll'); op = os.path.join(out, 'opt.ll')
    for cmd in ([LL + 'llvm-link', '-S', '-o', al] + outs, [LL + 'opt', '-S', '-passes=mem2reg', al, '-o', op]):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise BuildError(r.stderr[:4000])
    return op

def demangle(names):
    r = subprocess.run([LL + 'llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))
