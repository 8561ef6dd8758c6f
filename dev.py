import sys, os, time, traceback
sys.path.insert(0, '/verif')
from slatvc import build, runner
prop = sys.argv[1]; pat = ([a for a in sys.argv[2:] if a != '-v'] or [''])[0]
import plan
P = plan.get(prop); srcs = P['srcs']
t=time.time()
op = build.build(srcs, ['/verif/contracts/%s.cpp' % prop], '/verif/build/dev_' + prop)
t1=time.time()
mod, dem = runner.load(op)
print('build %.1f parse %.1f' % (t1-t, time.time()-t1))
def work(f):
    t=time.time()
    try: return f, runner.run_harness(mod, dem, f, plan.hopts(P, f), P['budget']), time.time()-t
    except Exception: return f, traceback.format_exc()[-800:], 0
import multiprocessing
names = sorted(n for n in mod.funcs if n.startswith('vch_%s_' % prop) and pat in n)
with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
  for f, r, dt in pool.imap(work, names, 1):
    if isinstance(r, str): print(f, r); continue
    ok = sum(o['status']=='proved' for o in r['obligations'])
    print('%s: %d/%d  err=%s covers=%s paths=%d %.1fs %s' % (f, ok, len(r['obligations']), r['error'], r['covers'], r['paths'], dt, r['bounded'] or ''))
    for o in r['obligations']:
        if o['status']!='proved' or '-v' in sys.argv: print('    %s %s [%s] %s\n        %s\n        %s' % (o['status'], o['id'], o['backend'], o['where'], o['goal'][:1200], o['inputs']))
    for k,v in r['loops'].items(): print('    loop', k[:100], v)
