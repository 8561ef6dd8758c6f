#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo's current tree.

1. compile /repo's current sources and the contracts of the property to LLVM IR,
2. discharge every obligation of every contract function with slatvc,
3. where an obligation is not accepted, look for a failing input by running the same contract
   function natively on the real library, starting from the verifier's counterexample."""
import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)
import json, time, argparse, subprocess, multiprocessing, traceback, re, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, 'native'))
from slatvc import build, runner
import plan

def work(job):
    name, opts, budget = job
    try: return runner.run_harness(MOD, DEM, name, opts, budget)
    except Exception as e:
        return dict(harness=name, error='internal: %s: %s [%s]' % (type(e).__name__, e, traceback.format_exc()[-600:]), obligations=[], covers={}, fns=[], bounded=[], loops={}, assumptions=[], paths=0, wall=0, stats={}, steps=0)

def judge(r):
    if any(o['status'] == 'cex' for o in r['obligations']): return 'failed'
    if r['error'] or any(o['status'] != 'proved' for o in r['obligations']) or not r['obligations']: return 'stuck'
    if not r['covers'] or any(v is False for v in r['covers'].values()): return 'stuck'
    if r['bounded']: return 'bounded'
    return 'proved'

def constants(rs):
    """numbers in the goals of unaccepted obligations: a dictionary for the input generator"""
    ds = set()
    for r in rs:
        for o in r['obligations']:
            if o['status'] != 'proved':
                for x in re.findall(r'(?<![\w#!.])\d+(?:\.\d+)?(?:/\d+)?(?:e[+-]?\d+)?', o['goal'] + ' ' + ' '.join(o.get('facts', []))):
                    try:
                        n, _, d = x.partition('/'); v = float(n) / float(d or 1)
                        ds.add(v); ds.add(-v)
                    except (ValueError, ZeroDivisionError): pass
    return sorted(ds)[:4000]

def source_constants():
    out = set()
    for f in sorted(os.listdir(build.SRC)):
        if f.endswith(('.cpp', '.h')) and '_test' not in f:
            for x in re.findall(r'(?<![\w.])\d+(?:\.\d*)?(?:[eE][+-]?\d+)?', open(os.path.join(build.SRC, f), errors='replace').read()):
                try: out.add(float(x))
                except ValueError: pass
    return sorted(x for x in out if abs(x) < 1e7)

def write_inputs(path, inp):
    with open(path, 'w') as f:
        for k, v in inp.items():
            if isinstance(v, bool): v = int(v)
            f.write('%s %s\n' % (k, v))

def run_native(exe, h, seed, iters, secs, inputs='-', dic=None, env=None):
    cmd = [exe, h, str(seed), str(iters), str(secs), inputs] + ([dic] if dic else [])
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 60, env=env)
        out = p.stdout
    except subprocess.TimeoutExpired: return None, (0, 0)
    m = re.search(r'^FAIL (\d+) (.*)$', out, re.M)
    if m:
        try: d = json.loads(m.group(2))
        except ValueError: d = dict(check='?', why=m.group(2)[:300], inputs={})
        d['sample'] = int(m.group(1)); d['cmd'] = ' '.join(cmd); return d, (0, 0)
    m = re.search(r'^DONE (\d+) (\d+)', out, re.M)
    return None, (int(m.group(1)), int(m.group(2))) if m else (0, 0)

def known():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) obligation=(\S+) (.*)', l)
            if m: out.append((m.group(1), m.group(2), m.group(3).strip()))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only', default='')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop = a.prop; tier = 'thorough' if a.tier == 'thorough' else 'quick'; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = plan.get(prop)
    out = os.path.join(HERE, 'build', prop); os.makedirs(out, exist_ok=True); os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rep = os.path.join(HERE, 'build', prop, 'replay'); os.makedirs(rep, exist_ok=True)
    contract = os.path.join(HERE, 'contracts', prop + '.cpp')
    global MOD, DEM
    results = []; builderr = None
    try:
        op = build.build(P['srcs'], [contract] + [os.path.join(HERE, 'contracts', x) for x in P['extra']], out)
        MOD, DEM = runner.load(op)
        names = sorted((n for n in MOD.funcs if n.startswith('vch_%s_' % prop) and a.only in n), key=lambda n: -P['weight'].get(n.split('_', 2)[2], 0))
        budget = P['budget'] * (3 if tier == 'thorough' else 1)
        jobs = []
        for n in names:
            o = plan.hopts(P, n)
            if tier == 'thorough': o['timeout'] = 30000
            jobs.append((n, o, budget))
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(8, max(1, len(jobs))), maxtasksperchild=1) as pool:   # one process per contract: symbols are per process
            pend = [(j, pool.apply_async(work, (j,))) for j in jobs]
            hard = time.time() + min(budget * 2 + 60, 600)
            for j, r in pend:
                try: results.append(r.get(max(1, hard - time.time())))
                except multiprocessing.TimeoutError:
                    results.append(dict(harness=j[0], error='time budget', obligations=[], covers={}, fns=[], bounded=[], loops={}, assumptions=[], paths=0, wall=budget, stats={}, steps=0))
            pool.terminate()
    except build.BuildError as e: builderr = str(e)
    kn = [k for k in known() if k[0] == prop]
    knhit = []
    for r in results:
        for o in r['obligations']:
            if o['status'] != 'proved':
                for k in kn:
                    if k[1] == o['id']: o['status'] = 'known'; knhit.append(k)
        r['verdict'] = judge(dict(r, obligations=[o for o in r['obligations'] if o['status'] != 'known'] or ([dict(status='proved')] if r['obligations'] else [])))
    bad = [r for r in results if r['verdict'] in ('failed', 'stuck')]
    bnd = [r for r in results if r['verdict'] == 'bounded']
    native = dict(samples=0, rejected=0, harnesses=[], failures=[])
    violation = None
    need = bad + [r for r in bnd if r['harness'].split('_', 2)[2] not in P['bounded_ok']]
    if builderr and not results:
        need = [dict(harness='?', obligations=[], verdict='stuck')]      # every contract function of the native program
    if a.only: need = [r for r in need if a.only in r['harness']]
    todo = need if tier == 'quick' else (need + [r for r in results if r not in need])
    if todo and P['native']:
        try:
            import build_native
            exe = build_native.native(contract, out, extra=[os.path.join(HERE, 'native', x) for x in P['native_extra']], srcs=P['srcs'], flags=P['native_flags'])
            if builderr and not results:
                sy = subprocess.run(['nm', exe], capture_output=True, text=True).stdout
                need = todo = [dict(harness=h, obligations=[], verdict='stuck') for h in sorted(set(re.findall(r'\bvch_%s_\w+' % prop, sy)))]
            dic = os.path.join(out, 'dict.txt')
            with open(dic, 'w') as f: f.write('\n'.join('%r' % x for x in constants(need) + source_constants()))
            secs = P['native_secs'] * (4 if tier == 'thorough' else 1)
            def one(r):
                h = r['harness']; short = h.split('_', 2)[2]
                if short in P['native_skip']: return r, None, (0, 0)
                if r in need:
                    for o in r['obligations']:
                        if o['status'] in ('cex',) and o['inputs']:
                            ip = os.path.join(rep, '%s.model' % h); write_inputs(ip, o['inputs'])
                            d, n = run_native(exe, h, seed, 60, 15, ip, dic)
                            if d: d['inputs_file'] = ip; return r, d, n
                n = P['native_iters'] * (3 if tier == 'thorough' else 1)
                d, k = run_native(exe, h, seed, n, secs, '-', dic if r in need else None)
                return r, d, k
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(8) as ex:
                for r, d, n in ex.map(one, todo):
                    native['samples'] += n[0]; native['rejected'] += n[1]; native['harnesses'].append(r['harness'])
                    if d: native['failures'].append((r, d))
        except build.BuildError as e: native['error'] = str(e)[:500]
    def replay(name, obj):
        p = os.path.join(rep, name + '.json')
        with open(p, 'w') as f: json.dump(obj, f, indent=1, default=str)
        return p
    lines = []
    for r, d in native['failures']:
        kid = '%s:%s' % (r['harness'].replace('vch_', ''), d.get('check'))
        if any(k[1] == kid for k in kn): continue
        p = replay(r['harness'], dict(property=prop, harness=r['harness'], failed_check=d.get('check'), why=d.get('why'), inputs=d.get('inputs'), command=d.get('cmd'),
             failed_obligations=[o for o in r['obligations'] if o['status'] not in ('proved', 'known')], verifier_error=r.get('error')))
        lines.append('VIOLATION property=%s replay=%s' % (prop, p))
    if not lines:
        for r in results:
            if r['verdict'] == 'failed':
                p = replay(r['harness'], dict(property=prop, harness=r['harness'], failed_obligations=[o for o in r['obligations'] if o['status'] == 'cex'], note='the verifier found a countermodel of the obligation; the native search found no failing input', native=dict(samples=native['samples'], error=native.get('error'))))
                lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
                break
    for k in sorted(set(knhit)): print('KNOWN-FINDING: property=%s %s' % (prop, k[2]))
    # ---- evidence
    obl = [o for r in results for o in r['obligations']]
    acc = [o for r in results if r['verdict'] == 'proved' or r['verdict'] == 'failed' or r['verdict'] == 'stuck' for o in r['obligations'] if o['status'] == 'proved']
    backends = {}
    for o in acc:
        for b in (o['backend'] or 'simplifier').split('+'): backends[b] = backends.get(b, 0) + 1
    fns = sorted({f for r in results for f in r['fns'] if 'SLAT' in f and 'vch_' not in f})
    tb = sorted({x for r in results for x in r['assumptions']}) + plan.TRUSTED
    cov = dict(obligations=len([o for r in results if r['verdict'] != 'bounded' for o in r['obligations']]), discharged=len(acc),
        checker_cmd='cd /verif && python3-vt check.py %s --tier %s' % (prop, tier), trusted_base=tb,
        contracts=[dict(name=r['harness'], verdict=r['verdict'], obligations=len(r['obligations']), discharged=sum(o['status'] == 'proved' for o in r['obligations']), seconds=round(r['wall'], 2), error=r['error'], loops=r['loops'], bounded=r['bounded'], covers={k: str(v) for k, v in r['covers'].items()}) for r in results],
        bounded_obligations=sum(len(r['obligations']) for r in bnd), functions_under_contract=fns, back_ends=backends,
        solver_seconds=round(sum(r['stats'].get('z3_time', 0) + r['stats'].get('cvc5_time', 0) for r in results), 2), solver_queries=sum(r['stats'].get('queries', 0) for r in results),
        native_samples=native['samples'], native_rejected=native['rejected'], native_harnesses=len(native['harnesses']), native_error=native.get('error'), build_error=builderr,
        samples=[dict(id=o['id'], goal=o['goal'][:400], backend=o['backend']) for o in obl[:6]])
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=cov, wall_s=round(time.time() - t0, 2))
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    if a.v:
        for r in results:
            print(r['harness'], r['verdict'], r['error'], 'obl=%d' % len(r['obligations']), '%.1fs' % r['wall'], r['bounded'], r['covers'])
            for o in r['obligations']:
                if o['status'] != 'proved': print('   ', o['status'], o['id'], o['goal'][:500], o['inputs'])
        if builderr: print(builderr[:1500])
        print('native', native['samples'], native['rejected'], native.get('error'))
    npr = sum(r['verdict'] == 'proved' for r in results)
    print('%s: %d contract functions, %d proved, %d bounded, %d not decided by proof; %d/%d obligations discharged; native samples %d; %.1fs' % (prop, len(results), npr, len(bnd), len(bad), len(acc), cov['obligations'], native['samples'], time.time() - t0))
    for r in bad:
        if r['verdict'] == 'stuck': print('NOTE: %s not decided by proof (%s); bounded native run in its place' % (r['harness'], r['error'] or [o['id'] for o in r['obligations'] if o['status'] not in ('proved', 'known')] or 'vacuous'))
    if builderr: print('NOTE: no proof, the sources did not compile for the verifier: %s' % builderr[:300].replace('\n', ' '))
    for l in lines: print(l)
    sys.exit(1 if lines else 0)
main()
