"""Contracts assumed for functions outside the verified code (runtime, libm, GSL, OpenMP), the
contract of SLAT::Integration::MAQ, and the harness vocabulary (vc_*)."""
import re
from .terms import *
from .dom import *
from . import exec as X
from . import solve
from .solve import INCREASING
from .exec import Out, PathEnd, Obj, ForkOn
from fractions import Fraction

def ret(st, v=None): return [Out(st, 'ret', v)]

def setup(ex):
    ex.fnranges = {}

def cstr(ex, p):
    """C string behind a constant pointer"""
    if not isinstance(p, Ptr) or p.o not in ex.globname: raise Unsupported('string literal expected')
    name = ex.globname[p.o]
    ty, init = ex.mod.ginit(name)
    if init[0] == 'zero': return ''
    b = bytes(init[1])[p.off:]
    return b.split(b'\0')[0].decode('utf8', 'replace')

# ---------------------------------------------------------------- lookup
FLOATFN = re.compile(r'^(exp|log|sqrt|fabs|pow|log1p|expm1|log2|log10|exp2|fma|hypot|fmin|fmax|floor|ceil|copysign|erf|erfc|gsl_cdf_.*|vc_isnan|vc_isinf|vc_isfin|vc_sgnbit|gsl_isnan|llvm\.(fmuladd|fma|fabs|sqrt|pow|exp|log|floor|ceil|maxnum|minnum|copysign)\..*)$')
def uf_fn(name, h0):
    m = re.match(r'^llvm\.(\w+)\.', name); base = m.group(1) if m else name
    truth = base in ('vc_isnan', 'vc_isinf', 'vc_isfin', 'vc_sgnbit', 'gsl_isnan')
    def h(ex, st, args):
        if not ex.uf: return h0(ex, st, args)
        xs = [ex.ufv(a) for a in args]
        if truth: return ret(st, ite(app('UF_isnan' if 'isnan' in base else 'UF_' + base, *xs, sort='B'), I1, I0))
        return ret(st, D(app('UF_' + base, *xs)))
    return h
def lookup(ex, name):
    h = lookup1(ex, name)
    if h is not None and ex.opts.get('uf') and FLOATFN.match(name): return uf_fn(name, h)
    return h
def lookup1(ex, name):
    h = EXT.get(name)
    if h: return h
    if name.startswith('llvm.'):
        for k, v in LLVM.items():
            if name.startswith(k): return v
        raise Unsupported('intrinsic ' + name)
    dn = ex.dem.get(name, name)
    if ex.opts.get('caches') == 'memo':
        for pat, fn in MEMO:
            if pat.match(dn): return fn(ex, name)
    if ex.opts['transparent']:
        for pat, fn in TRANSPARENT:
            if pat.match(dn): return fn(ex, name)
    if ex.opts.get('maq', True) and MAQ_RE.match(dn): return maq
    if ex.opts.get('search') and SEARCH_RE.match(dn):
        h = search_contract(ex, name)
        if h: return h
    for k, v in ex.opts.get('intercepts', {}).items():
        if dn.startswith(k): return v
    for k in ex.opts.get('abstract', ()):
        if dn.startswith(k + '('): return abstract_call(name, k)
    for k in ex.opts.get('contracts', ()):
        if dn.startswith(k + '('): return method_contract(name, k, CONTRACTS[k])
    return None

# contracts of methods, used at call sites instead of their bodies (the bodies are under contract elsewhere):
# the result is a finite value determined by the object and the argument
CONTRACTS = {
    'SLAT::CompGroup::E_cost_IM_calc': dict(tag='E_cost', lo=None, by='C11'),
    'SLAT::CompGroup::SD_ln_cost_IM_calc': dict(tag='SD_ln_cost', lo=0, by='C11'),
    'SLAT::IM::pCollapse': dict(tag='pCollapse', lo=0, hi=1, by='C08'),
    'SLAT::IM::pDemolition': dict(tag='pDemolition', lo=0, hi=1, by='C08'),
    'SLAT::IM::pRepair': dict(tag='pRepair', lo=0, hi=1, by='C08'),
    'SLAT::Structure::TotalCost': dict(tag='TotalCost', dist=True, by='C14'),
}
MAKE_DIST = 'SLAT::LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX('
def dist_contract(fname, name, c):
    """a distribution determined by the object and the argument: any location (also minus infinity: no cost), any spread, or undefined"""
    def h(ex, st, args):
        out, this, x = args
        if x.bad() is not FALSE or this.o is None or this.idx: raise Unsupported('contract of %s at an undefined argument' % name)
        f = 'F_%s@%d+%d' % (c['tag'], this.o, this.off)
        rng(ex, f + '.s', 0, None)
        und = app(f + '.nan', x.v, sort='B'); none = And(app(f + '.none', x.v, sort='B'), Not(und))
        ex.assumptions.add('contract of %s used at call sites: a distribution determined by object and intensity (its body is decided by %s)' % (name, c['by']))
        mk = [n for n, d in ex.dem.items() if d.startswith(MAKE_DIST)]
        return ex.call(st, ex.gptr(mk[0]), [out, D(app(f + '.m', x.v), und, FALSE, none), D(app(f + '.s', x.v), und)])
    return h
ABSTRACT = {}
def abstract_call(fname, name):
    """a method (this, double) -> double or structure of doubles: its body is executed at a placeholder argument and
    each resulting number replaced by an unknown function of the argument, the same one wherever the body's
    result is the same expression"""
    def h(ex, st, args):
        f = ex.mod.func(fname); ti = 1 if f.sret is not None else 0
        x = args[ti + 1]
        def plain(s, a):
            ex.intercepts[fname] = None
            try: return ex.call(s, Fn(fname), a)
            finally: ex.intercepts[fname] = h
        if len(args) != ti + 2 or not isinstance(x, D) or x.bad() is not FALSE: return plain(st, args)
        ph = sym('$arg', 'R', 0 if isnum(x.v) and x.v.a[0] >= 0 or x.v is sym('$arg', 'R', 0, fresh=False) or X.quick(st.ctx(), le(R0, x.v)) else None, fresh=False)
        obj = args[ti]; mk = (fname, obj, ph.id)
        def opaque(d):
            if not isinstance(d, D): return d
            if d.pi is not FALSE or d.ni is not FALSE: key = (d.v, d.nan, d.pi, d.ni)
            else: key = (d.v, d.nan)
            if all(ph not in t.fv for t in key): return d
            k = ABSTRACT.setdefault(key, len(ABSTRACT))
            flag = lambda t, n: t if t is FALSE or t is TRUE else app('F_abs%d.%s' % (k, n), x.v, sort='B')
            return D(app('F_abs%d' % k, x.v), flag(d.nan, 'nan'), flag(d.pi, 'pi'), flag(d.ni, 'ni'))
        res = None
        for deps, misc, r in ex.pures.get(mk, ()):
            if all(same_obj(st.mem.get(i), o) for i, o in deps.items()) and all(st.misc.get(k) is v for k, v in misc.items()):
                res = r; break
        if res is None:
            s2 = st.fork(); s2.wlog = None; s2.pc = []; s2.qf = []; s2._ctx = None
            before = dict(s2.mem); outer = ex.rec; ex.rec = {}; omisc = ex.recmisc; ex.recmisc = {}
            ex.pure_depth += 1
            try: outs = plain(s2, args[:ti + 1] + [D(ph)])
            finally:
                ex.pure_depth -= 1
                deps = {i: o for i, o in ex.rec.items() if i in before}; misc = ex.recmisc
                ex.rec = outer; ex.recmisc = omisc
            if len(outs) != 1 or outs[0].kind != 'ret': return plain(st, args)
            end = outs[0].st
            for i, o in before.items():
                if ti and i == args[0].o: continue
                if end.mem.get(i) is not o and not same_obj(end.mem.get(i), o): return plain(st, args)
            res = end.mem[args[0].o].cells if ti else outs[0].val
            if ti:
                if end.mem[args[0].o].dims or args[0].off or args[0].idx: raise Unsupported('abstract result in an array')
                deps.pop(args[0].o, None)
            ex.pures.setdefault(mk, []).append((deps, misc, res))
        if ex.rec is not None:
            for i in deps: ex.obj(st, i)
            ex.recmisc.update(misc)
        if not ti: return ret(st, opaque(res))
        o = ex.wobj(st, args[0].o)
        for off, (sz, v) in res.items(): o.cells[off] = (sz, opaque(v))
        return ret(st, None)
    return h
def same_obj(a, b):
    return a is b or (a is not None and b is not None and a.freed == b.freed and a.cells == b.cells)
def method_contract(fname, name, c):
    if c.get('dist'): return dist_contract(fname, name, c)
    def h(ex, st, args):
        this, x = args
        if x.bad() is not FALSE or this.o is None or this.idx:
            ex.intercepts[fname] = None
            try: return ex.call(st, Fn(fname), args)
            finally: ex.intercepts[fname] = h
        f = 'F_%s@%d+%d' % (c['tag'], this.o, this.off)
        rng(ex, f, c['lo'], c.get('hi'))
        ex.assumptions.add('contract of %s used at call sites: finite%s, determined by object and intensity (its body is decided by %s)' % (name, ' and within its range' if c['lo'] is not None else '', c['by']))
        return ret(st, D(app(f, x.v)))
    return h
MAQ_RE = re.compile(r'^SLAT::Integration::MAQ\(std::function<double \(double\)>\)')

SEARCH_RE = re.compile(r'^SLAT::Integration::\w+\(std::function<double \(double\)>, unsigned int\)$')
def search_contract(ex, name):
    """contract of a range search (decided by C18 and C17): a proper bracket, or no range; two or more evaluations"""
    f = ex.mod.func(name)
    if f is None or len(f.params) != 3: return None
    def h(ex, st, args):
        ex.assumptions.add('contract of the range searches used at call sites: no range, or 0 <= start < end <= 1; at least two evaluations; no effect besides evaluating the integrand (their bodies are decided by C18 and C17)')
        out = args[0]; res = []
        ev = sym('evaluations', 'I')
        st.assume(le(I(2), ev))
        s2 = st.fork()
        for s, a, b in ((st, D(R0, TRUE), D(R0, TRUE)), (s2, D(sym('start', 'R')), D(sym('end', 'R')))):
            if s is s2:
                for t in (le(R0, a.v), lt(a.v, b.v), le(b.v, R1)): s.assume(t)
            ex.store(s, out, a, 8); ex.store(s, ex.padd(s, out, 8), b, 8); ex.store(s, ex.padd(s, out, 16), ev, 4)
            res += ret(s)
        return res
    return h
def noop(ex, st, args): return ret(st, None)
def _noop(ex, name): return noop
def cached_call(kind):
    def make(ex, name):
        f = ex.mod.func(name)
        sret = f.sret is not None
        m = re.search(r'(CachedFunction|CachedValue)', ex.dem[name]).group(1)
        ti = 1 if sret else 0
        off = {}
        def h(ex, st, args):
            this = args[ti]; rest = list(args[ti + 1:])
            if not isinstance(this, Ptr) or this.o is None: ex.fail(st, 'no-null-dereference', 'cached function through null')
            o = cache_func_off(ex, ex.dem[name])
            fo = Ptr(this.o, this.off + o, this.idx)
            obj = ex.load(st, fo, ('ptr',)); inv = ex.load(st, Ptr(fo.o, fo.off + 8, fo.idx), ('ptr',))
            ex.fns.add(name)
            ex.assumptions.add('caches transparent in value obligations (C21-C24 decide that transparency)')
            return ex.call(st, inv, ([args[0]] if sret else []) + [obj] + rest)
        return h
    return make
# 'memo' contract of caches (its discharge is C21's): ghost state per live cache object, either empty or filled with
# the results of its function for every argument as of an earlier moment (vc_remember); clearing empties it
EMPTYCACHE = 'empty'
def memo_key(p):
    if not isinstance(p, Ptr) or p.o is None or p.idx: raise Unsupported('cache object at a symbolic place')
    return ('cache', p.o, p.off)
def memo_clear(ex, name):
    ex_name = name
    def h(ex, st, args):
        ex.fns.add(ex_name)
        live(ex, st, args[0])
        st.misc[memo_key(args[0])] = EMPTYCACHE; return ret(st, None)
    return h
def live(ex, st, p):
    ex.chk(st, p, 'clearing or reading the cache')
def memo_add(ex, name):
    def h(ex, st, args): st.misc[memo_key(args[0])] = EMPTYCACHE; return ret(st, None)
    return h
def memo_remove(ex, name):
    def h(ex, st, args): st.misc.pop(memo_key(args[0]), None); return ret(st, None)
    return h
def vc_remember(ex, st, args):
    if ex.opts.get('caches') != 'memo': return ret(st, I0)
    ks = [k for k, v in st.misc.items() if k[0] == 'cache' and v == EMPTYCACHE and not st.mem[k[1]].freed] if st.misc else []
    if ex.opts.get('uf'): ex.uf = True; solve.FAST[0] = bool(ex.opts.get('fast'))
    snap = st.fork(); snap.wlog = None
    for k in ks: st.misc[k] = snap
    ex.assumptions.add('contract of caches used at call sites: a read returns the function value, or the one from an earlier moment unless cleared since (C21 decides it)')
    return ret(st, I0)
def memo_call(ex, name):
    plain = cached_call('f')(ex, name)
    f = ex.mod.func(name); ti = 1 if f.sret is not None else 0
    def h(ex, st, args):
        live(ex, st, args[ti])
        snap = st.misc.get(memo_key(args[ti]))
        if ex.rec is not None: ex.recmisc[memo_key(args[ti])] = snap
        if not isinstance(snap, X.State): return plain(ex, st, args)
        s2 = snap.fork(); s2.pc = list(st.pc); s2.qf = list(st.qf); s2._ctx = st._ctx; s2.locks = dict(st.locks); s2.wlog = None
        for oid, o in st.mem.items():
            if oid not in s2.mem: s2.mem[oid] = o
        if ti: s2.mem[args[0].o] = st.mem[args[0].o]
        seen = set(s2.mem)
        rec, recmisc = ex.rec, ex.recmisc       # what an earlier moment holds does not change
        ex.rec = None
        try: outs = plain(ex, s2, args)
        finally: ex.rec = rec; ex.recmisc = recmisc
        for o in outs:
            s3 = o.st; mem = dict(st.mem)
            for oid, ob in s3.mem.items():
                if oid not in seen: mem[oid] = ob
            if ti: mem[args[0].o] = s3.mem[args[0].o]
            for ob in mem.values(): ob.owner = None
            s3.mem = mem; s3.misc = dict(st.misc); s3.locks = dict(st.locks); s3.wlog = st.wlog; s3.token = object()
        return outs
    return h

def cache_func_off(ex, dn):
    cls = dn.split('::operator()')[0]
    # strip a return type, if any
    i = cls.find('SLAT::Caching::Cached'); cls = cls[i:]
    c = ex.named_caches.get(cls)
    if c is not None: return c
    for tn in ex.mod.types:
        t = tn.lstrip('%').strip('"')
        if not t.startswith('class.SLAT::Caching::Cached'): continue
        base = re.sub(r'^class\.', '', t); base = re.sub(r'\.\d+$', '', base)
        if base.split('<')[0] == cls.split('<')[0]:
            ty = ex.mod.types[tn]
            for j, f in enumerate(ty[1]):
                if f[0] == 'named' and 'class.std::function' in f[1]:
                    o, _ = ex.mod.field_off(('named', tn), j)
                    # all instantiations of one template must agree unless matched exactly
                    key = (cls.split('<')[0])
                    ex.named_caches.setdefault('$' + key, {})[tn] = o
    cand = ex.named_caches.get('$' + cls.split('<')[0], {})
    exact = [o for tn, o in cand.items() if type_match(tn, cls)]
    vals = set(exact or cand.values())
    if len(vals) != 1: raise Unsupported('layout of ' + cls)
    ex.named_caches[cls] = vals.pop()
    return ex.named_caches[cls]
def type_match(tn, cls):
    t = re.sub(r'^class\.', '', tn.lstrip('%').strip('"')); t = re.sub(r'\.\d+$', '', t)
    return t.replace(' ', '') == cls.replace(' ', '')

TRANSPARENT = [
    (re.compile(r'^(?:.* )?SLAT::Caching::CachedFunction<.*>::operator\(\)\('), cached_call('f')),
    (re.compile(r'^(?:.* )?SLAT::Caching::CachedValue<.*>::operator\(\)\('), cached_call('v')),
    (re.compile(r'^SLAT::Caching::CachedValue<.*>::operator .*\(\)'), cached_call('v')),
    (re.compile(r'^SLAT::Context::(PushText|PopText)\('), _noop),
    (re.compile(r'^SLAT::Caching::Private::(Add_Cache|Remove_Cache|Init_Caching)\('), _noop),
]

MEMO = [
    (re.compile(r'^(?:.* )?SLAT::Caching::CachedFunction<.*>::operator\(\)\('), memo_call),
    (re.compile(r'^(?:.* )?SLAT::Caching::CachedValue<.*>::operator\(\)\('), memo_call),
    (re.compile(r'^SLAT::Caching::Cached(Function|Value)<.*>::ClearCache\('), memo_clear),
    (re.compile(r'^SLAT::Caching::Private::Add_Cache\('), memo_add),
    (re.compile(r'^SLAT::Caching::Private::Remove_Cache\('), memo_remove),
]
# ---------------------------------------------------------------- evaluating a closure at an arbitrary point
def eval_pure(ex, st, fobj, params_fn, hint, lo=0, pure_args=None):
    """value of a closure at a fresh real argument; the resulting state is discarded.
    Returns (symbol, D)."""
    s = sym(hint, 'R', lo)
    st2 = st.fork()
    st2.wlog = None
    ex.pure_depth += 1
    try: outs = params_fn(st2, D(s))
    finally: ex.pure_depth -= 1
    outs = [o for o in outs]
    if any(o.kind != 'ret' for o in outs):
        bad = [o for o in outs if o.kind != 'ret' and not X.quick(o.st.ctx(), FALSE)]
        if bad: raise Unsupported('integrand may throw')
        outs = [o for o in outs if o.kind == 'ret']
    if len(outs) == 0: raise PathEnd()
    v = outs[0].val; base = len(st.pc)
    if len(outs) > 1:
        # merge values only
        vs = []
        for o in outs:
            g = And(*[t for t, br in o.st.pc[base:] if br]); vs.append((g, o.val))
        v = vs[-1][1]
        for g, x in reversed(vs[:-1]): v = merge_v(g, x, v)
    # facts learned inside (not branch conditions) that do not mention s are dropped: only values matter
    return s, v

def call_function(ex, fobj):
    def run(st2, x):
        obj = ex.load(st2, fobj, ('ptr',)); inv = ex.load(st2, Ptr(fobj.o, fobj.off + 8, fobj.idx), ('ptr',))
        return ex.call(st2, inv, [obj, x])
    return run

def bound_facts_sym(st, s): pass

def bodies(v): return (v.v, v.nan, v.pi, v.ni)

def maq(ex, st, args):
    """contract of MAQ: the result depends on the integrand only through its values on [0, inf);
    successful implies the integral is finite."""
    fobj = args[0]
    if ex.opts.get('maq_observe'): ex.opts['maq_observe'](ex, st, fobj)
    s, v = eval_pure(ex, st, fobj, call_function(ex, fobj), 'x', 0)
    if v is UNDEF: raise Unsupported('integrand undefined')
    v = canon(ex, st, v)
    if ex.uf: v = D(ex.ufv(v))
    bs = bodies(v)
    ex.assumptions.add('MAQ contract: result a function of the integrand values on [0,inf); C16/C17 decide it')
    ok = BIND('INTOK', bs, s, (), 'B')
    r = D(BIND('INTEGRAL', bs, s, (), 'R'), Not(ok))
    ev = BIND('EVALS', bs, s, (), 'I')
    if v.fin() is TRUE and v.v is R0:
        r = D(R0); ok = TRUE
    # MAQ_RESULT = { double, i64 } with bool at byte 0 and unsigned at byte 4 of the second word
    return ret(st, Agg([r, Packed([(0, 1, ok), (4, 4, ev)])]))

def canon(ex, st, v):
    """value irrelevant when flags certain"""
    return v

# ---------------------------------------------------------------- derivative
def localise(ex, st, s, at, v):
    """a derivative at a point depends on the function near that point only: a condition that is
    polynomial in the argument and strictly decided at the point has that value near it"""
    m = {}; ctx = st.ctx()
    for t in bodies(v):
        for a in atoms(t):
            if a.op not in ('lt0', 'le0', 'eq0') or s not in a.fv or a in m: continue
            p = a.a[0]
            if p is not s and not (p.op == 'poly' and all(y is s or s not in y.fv for mo, c in p.a for y, e in mo)): continue
            q = subst(p, {s: at})
            if X.quick(ctx, lt0(q)): m[a] = TRUE if a.op != 'eq0' else FALSE
            elif X.quick(ctx, lt0(neg(q))): m[a] = FALSE
    return D(*[replace(t, m) for t in bodies(v)]) if m else v
def deriv(dirn):
    def h(ex, st, args):
        F, x, hh, res, err = args
        fn = ex.load(st, F, ('ptr',)); par = ex.load(st, Ptr(F.o, F.off + 8, F.idx), ('ptr',))
        s, v = eval_pure(ex, st, None, lambda st2, y: ex.call(st2, fn, [y, par]), 'y', None)
        if ex.uf:
            r = D(BIND('DERIV', bodies(D(ex.ufv(v))), s, (ex.ufv(x), ex.ufv(hh)), 'R'))
            ex.store(st, res, r, 8); ex.store(st, err, ex.fresh(('double',), 'err'), 8)
            return ret(st, I0)
        if x.bad() is FALSE: v = localise(ex, st, s, x.v, v)
        bs = bodies(v)
        small = isnum(hh.v) and hh.bad() is FALSE and 0 < hh.v.a[0] <= Fraction(1, 10**6)
        extra = (x.v,) if small else (x.v, hh.v)
        kind = 'DERIV' if small else 'DERIVH'
        # one value for the derivative whatever the difference scheme; each scheme may fail on its own
        r = D(BIND(kind, bs, s, extra, 'R'), Or(x.bad(), BIND('DNAN_' + dirn, bs, s, extra, 'B')))
        if v.bad() is FALSE: r = D(r.v, x.bad())
        if s not in fv_of(v) and v.bad() is FALSE: r = D(R0, x.bad())
        ex.store(st, res, r, 8)
        ex.store(st, err, ex.fresh(('double',), 'err'), 8)
        ex.assumptions.add('gsl_deriv_* return the derivative of the function they are given (step <= 1e-6), or NaN')
        return ret(st, I0)
    return h

# ---------------------------------------------------------------- GSL distributions and interpolation
def std_norm_arg(ex, st, x, zeta, sigma):
    S = ex.S(st)
    lx = d_log(x, S)
    return d_div(d_sub(lx, zeta, S), sigma, S)
def cdf_lognormal(upper):
    def h(ex, st, args):
        S = ex.S(st)
        x, zeta, sigma = args
        u = std_norm_arg(ex, st, x, zeta, sigma)
        if upper: u = d_neg(u)
        r = d_phi(u)
        # PHI(-u) = 1 - PHI(u)
        if upper:
            p = d_phi(d_neg(u)); r = D(sub(R1, p.v), p.nan)
        return ret(st, r)
    return h
def lognormal_pinv(upper):
    def h(ex, st, args):
        S = ex.S(st)
        p, zeta, sigma = args
        if upper: p = d_sub(D(R1), p, S)
        q = d_phiinv(p, S)
        z = d_add(zeta, d_mul(sigma, q, S), S)
        # p = 0 -> 0 and p = 1 -> inf whatever zeta and sigma
        e = d_exp(z)
        p0 = S(And(p.fin(), eq(p.v, R0))); p1 = S(And(p.fin(), eq(p.v, R1)))
        r = e
        if p0 is not FALSE: r = merge_v(p0, D(R0), r)
        if p1 is not FALSE: r = merge_v(p1, PINF, r)
        return ret(st, r)
    return h
def cdf_ugaussian(upper):
    def h(ex, st, args):
        p = d_phi(args[0]) 
        return ret(st, D(sub(R1, p.v), p.nan) if upper else p)
    return h
def cdf_gaussian(upper):
    def h(ex, st, args):
        S = ex.S(st); p = d_phi(d_div(args[0], args[1], S))
        return ret(st, D(sub(R1, p.v), p.nan) if upper else p)
    return h
def pinv_ug(upper):
    def h(ex, st, args):
        S = ex.S(st); p = args[0]
        if upper: p = d_sub(D(R1), p, S)
        return ret(st, d_phiinv(p, S))
    return h

def accel_alloc(ex, st, args): return ret(st, ex.alloc(st, 'heap', 8, name='gsl_accel'))
def gsl_free(ex, st, args):
    p = args[0]
    if isinstance(p, Ptr) and p.o is not None:
        ex.chk(st, p, 'free'); ex.wobj(st, p.o).freed = True
    return ret(st, None)
def spline_alloc(ex, st, args):
    ty, n = args
    if not isinstance(ty, Ptr): raise Unsupported('interpolation type')
    p = ex.alloc(st, 'heap', 64, name='gsl_spline')
    ex.store(st, p, ty, 8); ex.store(st, Ptr(p.o, 8), n, 8)
    return ret(st, p)
def clone_array(ex, st, p, name):
    """snapshot of the doubles behind p as a new array object"""
    o = ex.chk(st, p, 'read')
    q = ex.alloc(st, 'heap', None, stride=8, dims=1, name=name)
    no = st.mem[q.o]
    if o.dims == 0:
        ls = []
        k = 0
        while True:
            c = o.cells.get(p.off + 8 * k)
            if c is None or c[0] != 8: break
            ls.append(((X.SLOT(0),), eq(X.SLOT(0), I(k)), c[1])); k += 1
        no.cells[0] = (8, ls)
    else:
        if len(p.idx) != 1: raise Unsupported('nested array to gsl')
        p = ex.norm(st, o, p)
        c = o.cells.get(p.off)
        ls = []
        if c is not None and o.stride == 8:
            for syms, cond, v in c[1]:
                m = {syms[0]: add(X.SLOT(0), p.idx[0])} if p.idx[0] is not I0 else {syms[0]: X.SLOT(0)}
                ls.append(((X.SLOT(0),), subst(cond, m), subst_v(v, m)))
        else: raise Unsupported('strided array to gsl')
        no.cells[0] = (8, ls)
    return q
def spline_init(ex, st, args):
    sp, xa, ya, n = args
    ex.store(st, Ptr(sp.o, 16), clone_array(ex, st, xa, 'spline.x'), 8)
    ex.store(st, Ptr(sp.o, 24), clone_array(ex, st, ya, 'spline.y'), 8)
    ex.store(st, Ptr(sp.o, 32), n, 8)
    return ret(st, I0)
def spline_eval_e(ex, st, args):
    sp, x, acc, res = args
    ex.chk(st, sp, 'read')
    ty = ex.load(st, sp, ('ptr',))
    kind = ex.globname.get(ty.o, '?').replace('$gsl_interp_', '')
    n = ex.load(st, Ptr(sp.o, 32), ('i', 64))
    xa = ex.load(st, Ptr(sp.o, 16), ('ptr',)); ya = ex.load(st, Ptr(sp.o, 24), ('ptr',))
    X0 = ex.load(st, Ptr(xa.o, 0, (I0,)), ('double',)); XN = ex.load(st, Ptr(xa.o, 0, (sub(n, I1),)), ('double',))
    out = Or(d_lt(x, X0), d_lt(XN, x))
    d = ex.decide(st, out)
    if d is not False:
        if d is True: r = None
        else:
            s2 = st.fork()
            r = None
            if s2.assume(out, True):
                ex.store(s2, res, NAN, 8)
            st.assume(Not(out), True)
    rs = []
    if d is True:
        ex.store(st, res, NAN, 8); return ret(st, I1)
    # segment containing x: skolem function of the abscissa
    k = sym('seg', 'I', 0)
    st.assume(le(k, sub(n, I(2))))
    a = Ptr(xa.o, 0, (k,)); b = Ptr(xa.o, 0, (add(k, I1),)); ya0 = Ptr(ya.o, 0, (k,)); yb0 = Ptr(ya.o, 0, (add(k, I1),))
    xa_, xb_, y0, y1 = (ex.load(st, q, ('double',)) for q in (a, b, ya0, yb0))
    st.assume(Or(x.nan, And(d_le(xa_, x), d_le(x, xb_))))
    S = ex.S(st)
    t = d_div(d_sub(x, xa_, S), d_sub(xb_, xa_, S), S)
    y = d_add(y0, d_mul(d_sub(y1, y0, S), t, S), S)
    if kind != 'linear':
        y = D(app('INTERP_' + str(kind), y.v, x.v), y.nan)
    ex.store(st, res, y, 8)
    ex.assumptions.add('gsl_spline (linear): piecewise linear through the given points, GSL_EDOM/NaN outside')
    rs.append(Out(st, 'ret', I0))
    if d is None: rs.append(Out(s2, 'ret', I1))
    return rs
def spline_eval(ex, st, args):
    p = ex.alloc(st, 'stack', 8, name='res')
    rs = spline_eval_e(ex, st, list(args) + [p])
    return [Out(o.st, 'ret', ex.load(o.st, p, ('double',))) for o in rs]

# ---------------------------------------------------------------- memory, exceptions
def op_new(ex, st, args):
    n = args[0]
    sz = val(n) if isnum(n) else None
    if sz is None: raise Unsupported('allocation of symbolic size')
    return ret(st, ex.alloc(st, 'heap', sz, name='new(%d)' % sz))
def op_delete(ex, st, args):
    p = args[0]
    if p is UNDEF: raise Unsupported('delete of undefined')
    if p == NULL: return ret(st)
    o = ex.chk(st, p, 'delete')
    if o.dims: raise Unsupported('delete of array element')
    ex.wobj(st, p.o).freed = True
    return ret(st)
def vc_buf(ex, st, args):
    return ret(st, ex.alloc(st, 'heap', None, stride=val(args[0]), dims=1, name='buf%d' % val(args[0])))
def cxa_alloc(ex, st, args): return ret(st, ex.alloc(st, 'heap', val(args[0]), name='exception'))
def cxa_throw(ex, st, args):
    ti = args[1]
    if isinstance(ti, Ptr): name = ex.globname[ti.o]
    else: name = ti.name
    return [Out(st, 'throw', (args[0], name))]
def begin_catch(ex, st, args):
    st.misc['caught'] = st.misc.get('caught', ()) + (args[0],)
    return ret(st, args[0])
def end_catch(ex, st, args):
    st.misc['caught'] = st.misc.get('caught', ())[:-1]
    return ret(st)
def rethrow(ex, st, args): raise Unsupported('rethrow')
def typeid_for(ex, st, args): return ret(st, I(ex.tid(ex.globname[args[0].o])))
def guard_acquire(ex, st, args):
    v = ex.load(st, args[0], ('i', 8))
    return ret(st, I(0 if val(v) else 1))
def guard_release(ex, st, args):
    ex.store(st, args[0], I1, 1); return ret(st)
def failure(what):
    def h(ex, st, args): ex.fail(st, 'no-abort', what)
    return h
def assert_fail(ex, st, args): ex.fail(st, 'no-abort', 'assertion failure')
def memcpy(ex, st, args):
    if not isnum(args[2]): raise Unsupported('memcpy of symbolic size')
    ex.memcpy(st, args[0], args[1], val(args[2])); return ret(st, args[0])
def memset(ex, st, args):
    if not isnum(args[2]): raise Unsupported('memset of symbolic size')
    ex.memset(st, args[0], args[1], val(args[2])); return ret(st, args[0])
def dynamic_cast(ex, st, args):
    p, src, dst, hint = args
    if p == NULL: return ret(st, NULL)
    vp = ex.load(st, p, ('ptr',))
    if not isinstance(vp, Ptr) or vp.o not in ex.globname: raise Unsupported('dynamic_cast of unknown dynamic type')
    tinfo = ex.load(st, Ptr(vp.o, vp.off - 8), ('ptr',)); top = ex.load(st, Ptr(vp.o, vp.off - 16), ('i', 64))
    top = val(top) if isinstance(top, T) else 0
    full = Ptr(p.o, p.off + top, p.idx)
    off = ex.tioff(ex.globname[tinfo.o], ex.globname[dst.o])
    return ret(st, NULL if off is None else Ptr(full.o, full.off + off, full.idx))
def atexit(ex, st, args): return ret(st, I0)

# ---------------------------------------------------------------- locks
def lk(p): return p
def lock_init(ex, st, args):
    ex.store(st, args[0], I0, 8); return ret(st)
def lockval(ex, st, p):
    return ex.load(st, p, ('i', 64))
def lock_set(ex, st, args):
    v = lockval(ex, st, args[0])
    d = ex.decide(st, eq(v, I0))
    if d is not True:
        if d is False: ex.fail(st, 'no-self-deadlock', 'a lock is taken while already held by the same thread')
        nm = v.a[0] if v.op == 'sym' else ''
        if nm.startswith('uninit'): pass
        else: ex.check(st, 'no-self-deadlock', eq(v, I0), 'lock free when taken')
    ex.store(st, args[0], I1, 8)
    hook = ex.opts.get('lock_hook')
    if hook: return hook(ex, st, 'set', args[0])
    return ret(st)
def lock_unset(ex, st, args):
    ex.store(st, args[0], I0, 8)
    hook = ex.opts.get('lock_hook')
    if hook: return hook(ex, st, 'unset', args[0])
    return ret(st)
def lock_test(ex, st, args):
    v = lockval(ex, st, args[0])
    if v is I0 or (v.op == 'sym' and v.a[0].startswith('uninit')): ex.store(st, args[0], I1, 8); return ret(st, I1)
    if ex.decide(st, eq(v, I1)): return ret(st, I0)
    raise Unsupported('test_lock')
def const_i(k):
    return lambda ex, st, args: ret(st, I(k))

# ---------------------------------------------------------------- libm
def m1(f):
    def h(ex, st, args):
        r = f(args[0], ex.S(st))
        if ex.opts.get('eager') and r.v.op not in ('num', 'sym', 'bv'):
            # simplify as soon as the side conditions are known, so that terms stay small
            r = D(solve.normalise(st.ctx(), r.v, 3), r.nan, r.pi, r.ni)
        return ret(st, r)
    return h
def S_(f): return f
def d_floor(ex, st, args):
    a = args[0]
    if isnum(a.v) and a.bad() is FALSE: return ret(st, D(R(a.v.a[0].__floor__() if isinstance(a.v.a[0], Fraction) else a.v.a[0])))
    k = app('FLOOR', a.v, sort='I')
    st.assume(le(toR(k), a.v)); st.assume(lt(a.v, add(toR(k), R1)))
    return ret(st, D(toR(k), a.nan, a.pi, a.ni))
def d_ceil(ex, st, args):
    a = args[0]
    k = app('CEIL', a.v, sort='I')
    st.assume(le(a.v, toR(k))); st.assume(lt(toR(k), add(a.v, R1)))
    return ret(st, D(toR(k), a.nan, a.pi, a.ni))
def fmin_(ex, st, args):
    a, b = args
    c = Or(b.nan, And(Not(a.nan), d_le(a, b))); c = ex.S(st)(c)
    return ret(st, merge_v(c, a, b))
def fmax_(ex, st, args):
    a, b = args
    c = Or(b.nan, And(Not(a.nan), d_le(b, a))); c = ex.S(st)(c)
    return ret(st, merge_v(c, a, b))
def fma_(ex, st, args):
    if ex.opts.get('blur'): return ret(st, ex.fbin(st, 'fadd', ex.fbin(st, 'fmul', args[0], args[1]), args[2]))
    S = ex.S(st); return ret(st, d_add(d_mul(args[0], args[1], S), args[2], S))
def hypot_(ex, st, args):
    S = ex.S(st); a, b = args; return ret(st, d_sqrt(d_add(d_mul(a, a, S), d_mul(b, b, S), S), S))
def pow_(ex, st, args): return ret(st, d_pow(args[0], args[1], ex.S(st)))
LN2 = LOG(R(2)); LN10 = LOG(R(10)); SQ2 = SQRT(R(2))
def scale_d(t): return lambda d: D(mul(d.v, t), d.nan, d.pi, d.ni)
def iabs(ex, st, args): return ret(st, ite(le(I0, args[0]), args[0], neg(args[0])))
def copysign_(ex, st, args):
    a, b = args; ab = d_abs(a)
    n = ex.S(st)(Or(b.ni, And(b.fin(), lt(b.v, R0))))
    return ret(st, merge_v(n, d_neg(ab), ab))

def isnan_(ex, st, args): return ret(st, ite(args[0].nan, I1, I0))
def isinf_(ex, st, args): return ret(st, ite(args[0].inf(), I1, I0))
def isfin_(ex, st, args): return ret(st, ite(args[0].fin(), I1, I0))
def sgnbit_(ex, st, args):
    a = args[0]; return ret(st, ite(Or(a.ni, And(a.fin(), lt(a.v, R0))), I1, I0))

# ---------------------------------------------------------------- harness vocabulary
def ufarg(ex, d): return D(ex.ufv(d)) if ex.uf else d
def _d(ex, p): return cstr(ex, p)
def numlit(d):
    if not (isnum(d.v)): raise Unsupported('literal bound expected')
    return None if d.bad() is not FALSE else d.v.a[0]
def vc_real(ex, st, args):
    n = cstr(ex, args[0])
    if n not in ex.inputs: ex.inputs[n] = ('real', sym(n, 'R', fresh=False))
    return ret(st, D(ex.inputs[n][1]))
from fractions import Fraction
def widen(lo, hi):
    """the numbers a contract names are sampling ranges of its native run; for the proof only their
    meaning counts: probability (exactly [0,1]), positive, non-negative, or any number"""
    if lo == 0 and hi == 1: return lo, hi
    return (None if lo is None or lo < 0 else lo if lo == 0 or lo == 1 else min(lo, Fraction(1, 10**9))), None
def widen_int(lo, hi): return (None if lo < 0 else lo), (None if hi >= 1000 else hi)
def vc_real_in(ex, st, args):
    n = cstr(ex, args[0]); lo, hi = widen(numlit(args[1]), numlit(args[2]))
    if n not in ex.inputs: ex.inputs[n] = ('real', sym(n, 'R', lo, hi, fresh=False))
    return ret(st, D(ex.inputs[n][1]))
def vc_any(ex, st, args):
    n = cstr(ex, args[0])
    if n not in ex.inputs:
        v = D(sym(n, 'R', fresh=False), sym(n + '.nan', 'B', fresh=False), sym(n + '.pinf', 'B', fresh=False), sym(n + '.ninf', 'B', fresh=False))
        ex.inputs[n] = ('any', v)
    v = ex.inputs[n][1]
    for c in (And(v.nan, v.pi), And(v.nan, v.ni), And(v.pi, v.ni)): st.assume(Not(c))
    return ret(st, v)
def vc_int(ex, st, args):
    n = cstr(ex, args[0]); lo, hi = widen_int(val(args[1]), val(args[2]))
    if n not in ex.inputs: ex.inputs[n] = ('int', sym(n, 'I', lo, hi, fresh=False))
    return ret(st, ex.inputs[n][1])
def vc_bool(ex, st, args):
    n = cstr(ex, args[0])
    if n not in ex.inputs: ex.inputs[n] = ('bool', sym(n, 'B', fresh=False))
    return ret(st, ex.inputs[n][1])
def rng(ex, f, lo, hi):
    if lo is not None or hi is not None: UFRANGE[f] = (lo, hi)
def vc_elem(ex, st, args):
    n = cstr(ex, args[0]); f = 'E_' + n; rng(ex, f, *widen(numlit(args[2]), numlit(args[3])))
    ex.inputs.setdefault(n, ('elem', f))
    return ret(st, D(app(f, args[1])))
def vc_elem2(ex, st, args):
    n = cstr(ex, args[0]); f = 'E2_' + n; rng(ex, f, *widen(numlit(args[3]), numlit(args[4])))
    ex.inputs.setdefault(n, ('elem2', f))
    return ret(st, D(app(f, args[1], args[2])))
def vc_elem_int(ex, st, args):
    n = cstr(ex, args[0]); f = 'EI_' + n; rng(ex, f, *widen_int(val(args[2]), val(args[3])))
    ex.inputs.setdefault(n, ('elemint', f))
    return ret(st, app(f, args[1], sort='I'))
def vc_increasing(ex, st, args):
    """assume elem name strictly increasing"""
    n = cstr(ex, args[0]); f = 'E_' + n
    s = sym('$j', 'I', 0)
    lev, (b,) = close((lt(app(f, s), app(f, add(s, I1))),), s)
    INCREASING.add(f)
    st.qf.append((I0, sym('$huge', 'I', 1 << 40, fresh=False), lev, b)); st._ctx = None
    return ret(st)
def vc_simplex(ex, st, args):
    n = cstr(ex, args[0]); f = 'E_' + n; rng(ex, f, 0, 1)
    ex.inputs.setdefault(n, ('elem', f))
    s = sym('$j', 'I', 0)
    if not st.assume(eq(SUM(app(f, s), s, args[1]), R1)): raise PathEnd()
    return ret(st)
def vc_fn(ex, st, args):
    n = cstr(ex, args[0]); f = 'F_' + n; x = ufarg(ex, args[1]); rng(ex, f, *widen(numlit(args[2]), numlit(args[3])))
    ex.inputs.setdefault(n, ('fn', f))
    return ret(st, D(app(f, x.v), x.bad()))
def vc_fn_any(ex, st, args):
    """arbitrary function that may also return NaN or infinities"""
    n = cstr(ex, args[0]); f = 'F_' + n; x = args[1]
    ex.inputs.setdefault(n, ('fnany', f))
    nan = app(f + '.nan', x.v, sort='B'); pi = And(app(f + '.inf', x.v, sort='B'), Not(nan))
    ng = app(f + '.sg', x.v, sort='B')
    return ret(st, D(app(f, x.v), Or(x.bad(), nan), And(pi, Not(ng), x.fin()), And(pi, ng, x.fin())))
def vc_fn2(ex, st, args):
    n = cstr(ex, args[0]); f = 'G_' + n; x, y = ufarg(ex, args[1]), ufarg(ex, args[2]); rng(ex, f, *widen(numlit(args[3]), numlit(args[4])))
    ex.inputs.setdefault(n, ('fn2', f))
    return ret(st, D(app(f, x.v, y.v), Or(x.bad(), y.bad())))
def vc_assume(ex, st, args):
    c = ex.tobool(args[0])
    if c is FALSE or not st.assume(c): raise PathEnd()
    if X.quick(st.ctx(), FALSE): raise PathEnd()
    return ret(st)
def vc_check(ex, st, args):
    ex.check(st, cstr(ex, args[0]), ex.tobool(args[1])); return ret(st)
def vc_check_eq(ex, st, args):
    n = cstr(ex, args[0]); a, b = args[1], args[2]
    ex.check(st, n, d_same(a, b), lambda: '%r  ==  %r' % (a, b) if len(repr(a)) < 1500 else None); return ret(st)
def vc_cover(ex, st, args):
    n = cstr(ex, args[0])
    if ex.covers.get(n) is True: return ret(st)
    r = X.solve.satisfiable(st.ctx())
    ex.covers[n] = True if r in (True, None) else (ex.covers.get(n) or False)
    return ret(st)
def vc_forall_index(ex, st, args):
    """arbitrary index 0 <= i < n"""
    n = cstr(ex, args[0]); hi = args[1]
    if n not in ex.inputs: ex.inputs[n] = ('int', sym(n, 'I', 0, fresh=False))
    i = ex.inputs[n][1]
    if not st.assume(lt(i, hi)) or X.quick(st.ctx(), FALSE): raise PathEnd()
    return ret(st, i)
def vc_note(ex, st, args):
    t = cstr(ex, args[0])
    if t.startswith('bounded: '): ex.bounded.append(t[9:])
    elif t != 'smooth': ex.assumptions.add(t)
    return ret(st)
def vc_integral(ex, st, args):
    """spec-level integral: same functional as the MAQ contract"""
    out = maq(ex, st, [args[0]])
    return [Out(o.st, 'ret', o.val.f[0]) for o in out]
def str_lit(ex, st, args):
    try: s = cstr(ex, args[0])
    except Exception: return ret(st, sym('str', 'I'))
    return ret(st, I(ex.strs.setdefault(s, len(ex.strs) + 1)))
def str_cat(ex, st, args): return ret(st, app('STRCAT', args[0], args[1], sort='I'))
def str_num(ex, st, args): return ret(st, sym('strnum', 'I'))
def is_symbolic(ex, st, args): return ret(st, I1)

EXT = {
    '_Znwm': op_new, '_Znam': op_new, '_ZdlPv': op_delete, '_ZdaPv': op_delete, '_ZdlPvm': op_delete,
    'vc_buf': vc_buf, 'vc_buf_for': vc_buf,
    '__cxa_allocate_exception': cxa_alloc, '__cxa_free_exception': noop, '__cxa_throw': cxa_throw,
    '__cxa_begin_catch': begin_catch, '__cxa_end_catch': end_catch, '__cxa_rethrow': rethrow,
    '__cxa_guard_acquire': guard_acquire, '__cxa_guard_release': guard_release, '__cxa_guard_abort': noop,
    '__cxa_atexit': atexit, '__cxa_pure_virtual': failure('pure virtual call'), 'abort': failure('abort'),
    'raise': failure('raise(SIGINT)'), '_ZSt9terminatev': failure('std::terminate'), '__clang_call_terminate': failure('exception escapes a noexcept boundary'),
    '__assert_fail': assert_fail, 'exit': failure('exit'),
    '__dynamic_cast': dynamic_cast, 'memcpy': memcpy, 'memmove': memcpy, 'memset': memset,
    'omp_init_lock': lock_init, 'omp_destroy_lock': noop, 'omp_set_lock': lock_set, 'omp_unset_lock': lock_unset, 'omp_test_lock': lock_test,
    'omp_get_active_level': const_i(0), 'omp_get_level': const_i(0), 'omp_get_ancestor_thread_num': const_i(0), 'omp_get_team_size': const_i(1),
    'omp_get_thread_num': const_i(0), 'omp_get_num_threads': const_i(1), 'omp_get_max_threads': const_i(1),
    'exp': m1(lambda a, S: d_exp(a)), 'log': m1(d_log), 'sqrt': m1(d_sqrt), 'fabs': m1(lambda a, S: d_abs(a)), 'pow': pow_,
    'log1p': m1(lambda a, S: d_log(d_add(a, D(R1), S), S)), 'expm1': m1(lambda a, S: d_sub(d_exp(a), D(R1), S)),
    'log2': m1(lambda a, S: d_div(d_log(a, S), D(LN2), S)), 'log10': m1(lambda a, S: d_div(d_log(a, S), D(LN10), S)),
    'exp2': m1(lambda a, S: d_exp(d_mul(a, D(LN2), S))), 'fma': fma_, 'hypot': hypot_, 'fmin': fmin_, 'fmax': fmax_,
    'floor': d_floor, 'ceil': d_ceil, 'copysign': copysign_, 'abs': iabs, 'labs': iabs,
    'erf': m1(lambda a, S: d_sub(d_mul(D(R(2)), d_phi(d_mul(a, D(SQ2), S)), S), D(R1), S)),
    'erfc': m1(lambda a, S: d_sub(D(R(2)), d_mul(D(R(2)), d_phi(d_mul(a, D(SQ2), S)), S), S)),
    'vc_isnan': isnan_, 'vc_isinf': isinf_, 'vc_isfin': isfin_, 'vc_sgnbit': sgnbit_, 'gsl_isnan': isnan_,
    'gsl_cdf_lognormal_P': cdf_lognormal(False), 'gsl_cdf_lognormal_Q': cdf_lognormal(True),
    'gsl_cdf_lognormal_Pinv': lognormal_pinv(False), 'gsl_cdf_lognormal_Qinv': lognormal_pinv(True),
    'gsl_cdf_ugaussian_P': cdf_ugaussian(False), 'gsl_cdf_ugaussian_Q': cdf_ugaussian(True),
    'gsl_cdf_gaussian_P': cdf_gaussian(False), 'gsl_cdf_gaussian_Q': cdf_gaussian(True),
    'gsl_cdf_ugaussian_Pinv': pinv_ug(False), 'gsl_cdf_ugaussian_Qinv': pinv_ug(True),
    'gsl_deriv_central': deriv('C'), 'gsl_deriv_forward': deriv('F'), 'gsl_deriv_backward': deriv('B'),
    'gsl_interp_accel_alloc': accel_alloc, 'gsl_interp_accel_free': gsl_free, 'gsl_spline_alloc': spline_alloc, 'gsl_spline_init': spline_init,
    'gsl_spline_free': gsl_free, 'gsl_spline_eval_e': spline_eval_e, 'gsl_spline_eval': spline_eval, 'gsl_set_error_handler_off': lambda ex, st, a: ret(st, NULL),
    'vc_str_lit': str_lit, 'vc_str_cat': str_cat, 'vc_str_num': str_num, 'vc_str_fresh': str_num,
    'vc_real': vc_real, 'vc_real_in': vc_real_in, 'vc_any': vc_any, 'vc_int': vc_int, 'vc_bool': vc_bool,
    'vc_elem': vc_elem, 'vc_elem2': vc_elem2, 'vc_elem_int': vc_elem_int, 'vc_increasing': vc_increasing, 'vc_simplex': vc_simplex, 'vc_fn': vc_fn, 'vc_fn_any': vc_fn_any, 'vc_fn2': vc_fn2,
    'vc_assume': vc_assume, 'vc_check': vc_check, 'vc_check_eq': vc_check_eq, 'vc_check_int': vc_check_eq, 'vc_cover': vc_cover,
    'vc_remember': vc_remember, 'vc_index': vc_forall_index, 'vc_note': vc_note,
}
LLVM = {
    'llvm.memcpy': memcpy, 'llvm.memmove': memcpy, 'llvm.memset': memset, 'llvm.fmuladd': fma_, 'llvm.fma': fma_,
    'llvm.stacksave': lambda ex, st, a: ret(st, NULL), 'llvm.stackrestore': noop, 'llvm.lifetime': noop, 'llvm.dbg': noop,
    'llvm.trap': failure('trap (out-of-range access)'), 'llvm.eh.typeid.for': typeid_for, 'llvm.assume': noop,
    'llvm.experimental.noalias': noop, 'llvm.fabs': m1(lambda a, S: d_abs(a)), 'llvm.sqrt': m1(d_sqrt), 'llvm.pow': pow_,
    'llvm.exp.': m1(lambda a, S: d_exp(a)), 'llvm.log.': m1(d_log), 'llvm.floor': d_floor, 'llvm.ceil': d_ceil,
    'llvm.maxnum': fmax_, 'llvm.minnum': fmin_, 'llvm.copysign': copysign_,
    'llvm.umul.with.overflow': lambda ex, st, a: ret(st, Agg([mul(a[0], a[1]), FALSE])),
    'llvm.expect': lambda ex, st, a: ret(st, a[0]),
    'llvm.smax': lambda ex, st, a: ret(st, Max(a[0], a[1])), 'llvm.smin': lambda ex, st, a: ret(st, Min(a[0], a[1])),
    'llvm.umax': lambda ex, st, a: ret(st, Max(a[0], a[1])), 'llvm.umin': lambda ex, st, a: ret(st, Min(a[0], a[1])),
    'llvm.abs': iabs,
}
