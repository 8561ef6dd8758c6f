"""Run the harness functions of one contract file and collect obligations."""
import sys, time, os
from . import ir, build, solve
from .terms import *
from .dom import *
from .exec import Exec, State, PathEnd, Out

sys.setrecursionlimit(20000)

def load(path):
    mod = ir.Module(open(path).read())
    names = list(mod.funcs) + list(mod.decls)
    dem = build.demangle(names)
    return mod, dem

def init_state(ex):
    """run the static initialisers"""
    st = State()
    g = ex.mod.globals.get('llvm.global_ctors')
    if g is not None:
        ty, init = ex.mod.ginit('llvm.global_ctors')
        if init and init[0] == 'agg':
            for et, v in init[1]:
                f = v[1][1][1]
                if f[0] == 'glob':
                    outs = ex.call(st, ex.gptr(f[1]), [])
                    outs = [o for o in outs if o.kind == 'ret']
                    if len(outs) != 1: raise Unsupported('static initialiser')
                    st = outs[0].st
    return st

def run_harness(mod, dem, name, opts=None, budget=120):
    t0 = time.time()
    ex = Exec(mod, dem, opts)
    err = None; nouts = 0
    try:
        st = init_state(ex)
        ex.deadline = time.time() + budget
        outs = ex.call(st, ex.gptr(name), [])
        for o in outs:
            if o.kind == 'throw':
                r = solve.prove(o.st.ctx(), FALSE)
                if r.status != 'proved':
                    ex.obligations.append(dict(id='no-unexpected-exception', goal='harness ended by exception %s' % (o.val[1],), status='cex' if r.status == 'cex' else 'unknown', model=r.model, ctx=o.st.ctx(), backend=r.backend, where=''))
            else: nouts += 1
    except Unsupported as e: err = 'unsupported: %s [%s]' % (e, ex.where() if ex.callstack else getattr(ex, 'lastwhere', ''))
    except PathEnd: pass
    except TooBig: err = 'term too big'
    except RecursionError: err = 'recursion'
    obs = []
    for o in ex.obligations:
        inp = {}
        if o['status'] == 'cex' and o.get('model') is not None:
            inp = model_inputs(ex, o['model'])
        obs.append(dict(id=name.replace('vch_', '') + ':' + o['id'], goal=o['goal'], status=o['status'], backend=o['backend'], where=o.get('where', ''), inputs=inp, time=o.get('time', 0)))
    return dict(harness=name, error=err, obligations=obs, covers=dict(ex.covers), fns=sorted(dem.get(f, f) for f in ex.fns), bounded=list(ex.bounded),
                loops={'%s %s' % (dem.get(k[0], k[0]), k[1]): sorted(v) for k, v in ex.loopstat.items()}, assumptions=sorted(ex.assumptions), paths=nouts, wall=time.time() - t0, stats=dict(solve.STATS), steps=ex.steps)

def model_inputs(ex, m):
    out = {}
    for n, (kind, t) in ex.inputs.items():
        try:
            if kind in ('real', 'int', 'bool'):
                v = solve.model_value(m, t)
                out[n] = float(v) if kind == 'real' else (bool(v) if kind == 'bool' else int(v))
            elif kind == 'any':
                if solve.model_value(m, t.nan): out[n] = 'nan'
                elif solve.model_value(m, t.pi): out[n] = 'inf'
                elif solve.model_value(m, t.ni): out[n] = '-inf'
                else: out[n] = float(solve.model_value(m, t.v))
            elif kind in ('elem', 'elemint'):
                for k in range(6):
                    v = solve.model_value(m, app(t, I(k), sort='R' if kind == 'elem' else 'I'))
                    if v is not None: out['%s[%d]' % (n, k)] = float(v) if kind == 'elem' else int(v)
        except Exception: pass
    return out
