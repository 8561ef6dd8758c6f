"""Obligation prover: term rewriting with proved side conditions, ground axioms for the
transcendental functions, congruence for binders, z3 (then cvc5) as back ends."""
import time, os, subprocess, tempfile
from fractions import Fraction
import z3
from .terms import *
from .terms import _poly_dict, _from_dict

STATS = dict(queries=0, z3_time=0.0, z3_unsat=0, z3_sat=0, z3_unknown=0, simplifier=0, cvc5_unsat=0, cvc5_calls=0, cvc5_time=0.0)
TRACE = bool(os.environ.get('VC_TRACE'))

_zf = {}
def zfun(name, sorts, rs):
    k = (name, sorts, rs)
    f = _zf.get(k)
    if f is None:
        zs = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}
        f = _zf[k] = z3.Function('%s/%s>%s' % (name, ''.join(sorts), rs), *[zs[s] for s in sorts], zs[rs])
    return f
def znum(v, s):
    if s == 'I': return z3.IntVal(int(v))
    v = Fraction(v)
    return z3.RealVal('%d/%d' % (v.numerator, v.denominator))
def z(t):
    if t._z is not None: return t._z
    # iterative over depth via recursion (terms are shallow)
    op = t.op
    if op == 'num': r = znum(t.a[0], t.sort)
    elif op == 'true': r = z3.BoolVal(True)
    elif op == 'false': r = z3.BoolVal(False)
    elif op == 'sym':
        r = {'I': z3.Int, 'R': z3.Real, 'B': z3.Bool}[t.sort](t.a[0])
    elif op == 'bv': r = {'I': z3.Int, 'R': z3.Real, 'B': z3.Bool}[t.sort]('#bv%d%s' % (t.a[0], t.sort))
    elif op == 'poly':
        ps = []
        for m, c in t.a:
            fs = []
            for x, e in m:
                zx = z(x)
                if x.sort == 'I' and t.sort == 'R': zx = z3.ToReal(zx)
                for _ in range(abs(e)):
                    fs.append(zx if e > 0 else 1 / zx)
            if c != 1 or not fs: fs.insert(0, znum(c, t.sort))
            p = fs[0]
            for f in fs[1:]: p = p * f
            ps.append(p)
        r = ps[0]
        for p in ps[1:]: r = r + p
    elif op == 'app':
        f = t.a[0]
        if f == 'TOR': r = z3.ToReal(z(t.a[1]))
        elif f == 'ABS': x = z(t.a[1]); r = z3.If(x >= 0, x, -x)
        elif f == 'DIV': r = z(t.a[1]) / z(t.a[2])
        elif f == 'MOD': r = z(t.a[1]) % z(t.a[2])
        else: r = zfun(f, tuple(x.sort for x in t.a[1:]), t.sort)(*[z(x) for x in t.a[1:]]) if len(t.a) > 1 else {'I': z3.Int, 'R': z3.Real, 'B': z3.Bool}[t.sort](f)
    elif op == 'ite': r = z3.If(z(t.a[0]), z(t.a[1]), z(t.a[2]))
    elif op == 'and': r = z3.And(*[z(x) for x in t.a])
    elif op == 'or': r = z3.Or(*[z(x) for x in t.a])
    elif op == 'not': r = z3.Not(z(t.a[0]))
    elif op == 'eq0': r = z(t.a[0]) == 0
    elif op == 'lt0': r = z(t.a[0]) < 0
    elif op == 'le0': r = z(t.a[0]) <= 0
    elif op in ('sum', 'bind'):
        r = {'I': z3.Int, 'R': z3.Real, 'B': z3.Bool}[t.sort]('%s_%d' % (op, t.id))
    else: raise Exception(op)
    t._z = r
    return r

def sym_facts(ts):
    """interval facts of the symbols and function ranges occurring in ts"""
    out = []; seen = set()
    acc = []; s2 = set()
    for t in ts: atoms(t, acc, s2)
    for x in acc:
        if x.op == 'sym' and x.sort != 'B':
            iv = SYMINFO.get(x)
            if iv:
                zx = z(x)
                if iv[0] is not None: out.append(zx >= znum(iv[0], x.sort))
                if iv[1] is not None: out.append(zx <= znum(iv[1], x.sort))
        elif x.op == 'app' and x.a[0] in UFRANGE:
            lo, hi = UFRANGE[x.a[0]]
            if lo is not None: out.append(z(x) >= znum(lo, x.sort))
            if hi is not None: out.append(z(x) <= znum(hi, x.sort))
    return out, acc

INCREASING = set()     # functions of an index declared strictly increasing
def transc_axioms(acc, heavy=True):
    out = []
    by = {}
    for x in acc:
        if x.op == 'app': by.setdefault(x.a[0], []).append(x)
    E = by.get('EXP', []); L = by.get('LOG', []); S = by.get('SQRT', []); P = by.get('PHI', []); PI_ = by.get('PHIINV', []); W = by.get('POW', [])
    for f in INCREASING:
        xs = by.get(f, [])[:24]
        for i in range(len(xs)):
            for j in range(i):
                a, b = z(xs[i].a[1]), z(xs[j].a[1])
                out += [z3.Implies(a < b, z(xs[i]) < z(xs[j])), z3.Implies(a > b, z(xs[i]) > z(xs[j]))]
    if len(E) <= 24:
        em = {e.a[1]: e for e in E}
        for e in E:
            d = em.get(scale(2, e.a[1]))
            if d is not None: out.append(z(d) == z(e) * z(e))
    for e in E:
        a = z(e.a[1]); out.append(z(e) > 0)
        out += [z3.Implies(a > 0, z(e) > 1), z3.Implies(a < 0, z(e) < 1), z3.Implies(a == 0, z(e) == 1), z(e) >= 1 + a]
    for l in L:
        a = z(l.a[1])
        out += [z3.Implies(a > 1, z(l) > 0), z3.Implies(z3.And(a > 0, a < 1), z(l) < 0), z3.Implies(a == 1, z(l) == 0), z3.Implies(a > 0, z(l) <= a - 1)]
        fe = zfun('EXP', ('R',), 'R')
        out += [z3.Implies(a > 0, fe(z(l)) == a)]
    fl = zfun('LOG', ('R',), 'R')
    for e in E: out.append(fl(z(e)) == z(e.a[1]))
    for s in S:
        a = z(s.a[1])
        out += [z(s) >= 0, z3.Implies(a >= 0, z(s) * z(s) == a), z3.Implies(a > 0, z(s) > 0), z3.Implies(a == 0, z(s) == 0)]
    for p in P:
        out += [z(p) >= 0, z(p) <= 1, z3.Implies(z(p.a[1]) > 0, z(p) > znum(Fraction(1,2),'R')), z3.Implies(z(p.a[1]) < 0, z(p) < znum(Fraction(1,2),'R')), z3.Implies(z(p.a[1])==0, z(p)==znum(Fraction(1,2),'R'))]
    fp = zfun('PHI', ('R',), 'R')
    for q in PI_:
        a = z(q.a[1]); out.append(z3.Implies(z3.And(a > 0, a < 1), fp(z(q)) == a))
    fq = zfun('PHIINV', ('R',), 'R')
    for p in P: out.append(z3.Implies(z3.And(z(p) > 0, z(p) < 1), fq(z(p)) == z(p.a[1])))
    for w in W: out.append(z3.Implies(z(w.a[1]) > 0, z(w) > 0))
    if heavy:
        def mono(xs, guard=None, strict=True):
            for i in range(len(xs)):
                for j in range(i + 1, len(xs)):
                    a, b = z(xs[i].a[1]), z(xs[j].a[1]); va, vb = z(xs[i]), z(xs[j])
                    g = guard(a, b) if guard else z3.BoolVal(True)
                    if strict: out.append(z3.Implies(g, z3.And(z3.Implies(a < b, va < vb), z3.Implies(a > b, va > vb), z3.Implies(a == b, va == vb))))
                    else: out.append(z3.Implies(g, z3.And(z3.Implies(a <= b, va <= vb), z3.Implies(a >= b, va >= vb))))
        if len(E) <= 8: mono(E)
        if len(L) <= 8: mono(L, lambda a, b: z3.And(a > 0, b > 0))
        if len(S) <= 8: mono(S, lambda a, b: z3.And(a >= 0, b >= 0))
        if len(P) <= 8: mono(P)
    return out

class Result:
    __slots__ = ('status', 'model', 'backend', 'why')
    def __init__(self, status, model=None, backend='', why=''): self.status = status; self.model = model; self.backend = backend; self.why = why
    def __bool__(self): return self.status == 'proved'

def _z3check(fs, timeout_ms, tactic=None):
    t0 = time.time()
    if tactic: s = z3.TryFor(z3.Then(*tactic), timeout_ms).solver()
    else: s = z3.Solver()
    s.set('timeout', timeout_ms)
    s.set('random_seed', 1) if not tactic else None
    cr = s.ctx.ref(); sr = s.solver
    for f in fs: z3.Z3_solver_assert(cr, sr, f.as_ast())
    try: r = s.check()
    except z3.Z3Exception: r = z3.unknown
    STATS['queries'] += 1; dt = time.time() - t0; STATS['z3_time'] += dt
    if TRACE and dt > 0.5: print('   [z3 %.2fs %s]' % (dt, r))
    if r == z3.unsat: STATS['z3_unsat'] += 1; return 'unsat', None, s
    if r == z3.sat:
        STATS['z3_sat'] += 1
        try: m = s.model()
        except z3.Z3Exception: m = None
        return 'sat', m, s
    STATS['z3_unknown'] += 1
    return 'unknown', None, s

def _cvc5(fs, timeout_s):
    s = z3.Solver()
    for f in fs: s.add(f)
    t0 = time.time(); STATS['cvc5_calls'] += 1
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout_s * 1000), '--lang=smt2', '-'], input=txt, capture_output=True, text=True, timeout=timeout_s + 5).stdout
    except (subprocess.TimeoutExpired, OSError): r = ''
    STATS['cvc5_time'] += time.time() - t0
    if r.startswith('unsat'): STATS['cvc5_unsat'] += 1; return 'unsat'
    if r.startswith('sat'): return 'sat'
    return 'unknown'

class Ctx:
    """facts: list of boolean terms; qfacts: list of (lo, hi, level, body) meaning for all lo<=j<hi: body[j]"""
    def __init__(self, facts=(), qfacts=()):
        self.facts = list(facts); self.qfacts = list(qfacts)
        self.cache = {}
    def key(self): return (tuple(f.id for f in self.facts), len(self.qfacts))

_quick_cache = {}
_roots = {}
def roots(lev, body):
    """values of the bound variable at which an equation of the body holds"""
    k = (lev, body.id)
    r = _roots.get(k)
    if r is None:
        if not _roots: _roots['$'] = sym('$q', 'I')
        q = _roots['$']; b = inst(body, lev, q); r = []; seen = set()
        def go(t):
            if t in seen or q not in t.fv: return
            seen.add(t)
            if t.op == 'eq0':
                p = t.a[0]
                if p.op == 'poly' and p.sort == 'I':
                    c = 0; rest = {}
                    for m, co in p.a:
                        if m == ((q, 1),): c = co
                        elif any(q in x.fv for x, e in m): return
                        else: rest[m] = co
                    if abs(c) == 1: r.append(_from_dict({m: -co * c for m, co in rest.items()}, 'I'))
                return
            if t.op in ('and', 'or', 'not', 'ite'):
                for x in t.a:
                    if isinstance(x, T): go(x)
        go(b); r = r[:4]; _roots[k] = r
    return r
def inst_qfacts(ctx, terms, limit=40):
    """instances of the quantified facts at integer terms occurring in `terms`"""
    if not ctx.qfacts: return []
    acc = []; seen = set()
    for t in terms: atoms(t, acc, seen)
    cand = []
    cs = set()
    for x in acc:
        if x.op in ('app', 'ite'):
            for y in x.a[1:]:
                if isinstance(y, T) and y.sort == 'I' and y.op in ('sym', 'poly', 'num', 'ite') and y not in cs: cs.add(y); cand.append(y)
    for x in acc:
        if x.op == 'sym' and x.sort == 'I' and x not in cs: cs.add(x); cand.append(x)
    out = []
    for q in ctx.qfacts:
        lo, hi, lev, body = q
        c2 = list(cand[:limit])
        for e in (lo, sub(hi, I1)):
            if e not in cs and len(c2) < limit + 2: c2.append(e)
        more = []
        if len(c2) < 12:
            for c in c2:
                for d in (1, -1):
                    y = add(c, I(d))
                    if y not in cs: more.append(y)
        for e in roots(lev, body):
            if e not in cs and e not in c2: more.append(e)
        for c in c2 + more:
            g = And(le(lo, c), lt(c, hi))
            if g is FALSE: continue
            b = inst(body, lev, c)
            f = Implies(g, b)
            if f is not TRUE: out.append(f)
    return out

def relevant(facts, goal_terms):
    """facts connected to the goal through shared symbols / opaque binders"""
    syms = set()
    for t in goal_terms: syms |= t.fv
    rest = [f for f in facts]
    out = []
    ch = True
    while ch:
        ch = False; nr = []
        for f in rest:
            if (not f.fv) or (f.fv & syms):
                out.append(f)
                if f.fv - syms: syms |= f.fv; ch = True
            else: nr.append(f)
        rest = nr
    return out

MODELS = []          # recent models: one that satisfies the next query saves asking again
def recall(fs, goal):
    if not MODELS: return False
    ks = [(f.get_id(), f) for f in [fs[goal]] + fs]
    for i, (m, memo) in enumerate(MODELS):
        for k, f in ks:
            r = memo.get(k)
            if r is None: r = memo[k] = (z3.is_true(m.eval(f, model_completion=True)), f)
            if not r[0]: break
        else:
            if i: MODELS.insert(0, MODELS.pop(i))
            STATS['recalled'] = STATS.get('recalled', 0) + 1
            return True
    return False
FAST = [False]       # no solver while executing: only what the facts say literally
def propositional(ctx, goal):
    fs = ctx.facts
    if goal is FALSE:
        ids = {f.id for f in fs}
        return any(Not(f).id in ids for f in fs)
    if goal.op == 'and': return all(propositional(ctx, t) for t in goal.a)
    if any(f is goal for f in fs): return True
    if goal.op == 'or': return any(any(f is t for f in fs) for t in goal.a)
    return False
def quick(ctx, goal, timeout=400):
    """cheap decision used during execution: True if goal provably holds"""
    if goal is TRUE: return True
    if goal is FALSE and not ctx.facts: return False
    if FAST[0]: return propositional(ctx, goal)
    k = (ctx.key(), goal.id)
    r = _quick_cache.get(k)
    if r is not None: return r
    if goal in ctx.facts: r = True
    else:
        fs = relevant(ctx.facts, [goal]) if goal is not FALSE else ctx.facts
        qi = inst_qfacts(ctx, fs + [goal], 16)
        ts = fs + qi + [Not(goal)]
        ax, acc = sym_facts(ts)
        fs = [z(t) for t in ts] + ax + transc_axioms(acc, heavy=len(acc) < 200)
        if recall(fs, len(ts) - 1): r = False
        else:
            st, m, _ = _z3check(fs, timeout)
            r = st == 'unsat'
            if m is not None:
                MODELS.insert(0, (m, {}))
                del MODELS[12:]
    _quick_cache[k] = r
    return r

# ------------------------------------------------------------- rewriting with side conditions
_bdepth = [0]
class _body:
    """the body of a finite sum, instantiated at an arbitrary index, with the facts that hold there"""
    def __init__(self, ctx, t):
        _bdepth[0] += 1
        self.s = sym('$k%d' % _bdepth[0], 'I', 0, fresh=False)
        self.b = inst(t.a[1], t.a[0], self.s)
        self.ctx = Ctx(ctx.facts + [le(I0, self.s), lt(self.s, t.a[2])], ctx.qfacts)
    def __enter__(self): return self
    def __exit__(self, *a): _bdepth[0] -= 1

_sign_cache = {}
def _pos(ctx, t, depth=0): return _sgn(ctx, t, True)
def _nonneg(ctx, t): return _sgn(ctx, t, False)
def _sgn(ctx, t, strict, solver=True):
    k = (ctx.key(), t.id, strict, solver)
    r = _sign_cache.get(k)
    if r is None: r = _sign_cache[k] = _sgn0(ctx, t, strict, solver)
    return r
def _sgn0(ctx, t, strict, solver):
    iv = interval(t)
    if iv[0] is not None and (iv[0] > 0 or (not strict and iv[0] >= 0)): return True
    if iv[1] is not None and (iv[1] < 0 or (strict and iv[1] <= 0)): return False
    if t.op == 'app':
        if t.a[0] == 'EXP': return True
        if t.a[0] == 'SQRT' and strict and _sgn(ctx, t.a[1], True, solver): return True
        if t.a[0] == 'LOG' and _sgn(ctx, sub(t.a[1], R1), strict, solver): return True
    if t.op == 'poly':
        some = not strict; ok = True
        for m, c in t.a:
            if c < 0: ok = False; break
            ps = True
            for x, e in m:
                if _sgn(ctx, x, True, solver): continue
                ps = False
                if e > 0 and e % 2 == 0: continue
                if e > 0 and _sgn(ctx, x, False, solver): continue
                ok = False; break
            if not ok: break
            if ps: some = True
        if ok and some: return True
    if t.op == 'poly' and t.sort == 'R':
        c0 = dict(t.a).get((), 0)
        if c0 > 0 and any(x.op == 'sum' or (x.op == 'app' and x.a[0] == 'EXP') for m, c in t.a for x, e in m) and _sgn(ctx, sub(t, R(c0)), False, solver): return True
    if t.op == 'sum':
        with _body(ctx, t) as B:
            r = _sgn(B.ctx, B.b, strict, solver)
        if r and (not strict or quick(ctx, lt(I0, t.a[2]), 800)): return True
        return False
    if t.op == 'poly' and len(t.a) > 1 and all(any(x.op == 'sum' and e >= 1 for x, e in m) for m, c in t.a):
        # sum_i c_i SUM(b_i) = SUM(sum_i c_i b_i), a factor of each monomial chosen as the sum
        ns = {x.a[2] for m, c in t.a for x, e in m if x.op == 'sum' and e >= 1}
        for n in ns:
            choices = [[x for x, e in m if x.op == 'sum' and e >= 1 and x.a[2] is n] for m, c in t.a]
            if not all(choices): continue
            tot = 1
            for ch in choices: tot *= len(ch)
            if tot > 16: continue
            import itertools
            for pick in itertools.product(*choices):
                with _body(ctx, pick[0]) as B:
                    b = add(*[mul(inst(x.a[1], x.a[0], B.s), mul(_from_dict({m: c}, 'R'), inv(x))) for (m, c), x in zip(t.a, pick)])
                    r = _sgn(B.ctx, b, strict, solver)
                if r and (not strict or quick(ctx, lt(I0, n), 800)): return True
    if t.op == 'poly' and len(t.a) > 1 and all(any(x.op == 'app' and x.a[0] == 'EXP' for x, e in m) for m, c in t.a):
        # divide by the exponential of the first monomial (positive)
        f = next(x for x, e in t.a[0][0] if x.op == 'app' and x.a[0] == 'EXP')
        u = mul(t, inv(f))
        if not all(any(x.op == 'app' and x.a[0] == 'EXP' for x, e in m) for m, c in _poly_dict(u).items()) and _sgn(ctx, u, strict, solver): return True
    if t.op == 'poly' and len(t.a) > 1 and any(len(m) >= 1 for m, c in t.a):
        # common positive factor
        common = None
        for m, c in t.a:
            d = dict(m)
            common = d if common is None else {x: min(e, d[x]) for x, e in common.items() if x in d}
        if common and all((e % 2 == 0 and not strict) or _sgn(ctx, x, True, False) for x, e in common.items()):
            f = R1
            for x, e in common.items():
                for _ in range(abs(e)): f = mul(f, x if e > 0 else inv(x))
            u = mul(t, inv(f))
            if u is not t and (u.op != 'poly' or len(u.a) <= len(t.a)):
                if _sgn(ctx, u, strict, solver): return True
    if not solver: return False
    g = lt(num(0, t.sort), t) if strict else le(num(0, t.sort), t)
    return quick(ctx, g, 1500)

def normalise(ctx, t, rounds=8, ites=False):
    for _ in range(rounds):
        memo = {}
        def go(t):
            if t.op in ('num', 'sym', 'bv', 'true', 'false'): return t
            r = memo.get(t)
            if r is not None: return r
            if t.op == 'sum':
                with _body(ctx, t) as B:
                    nb = normalise(B.ctx, B.b, 2, True)
                    r = t if nb is B.b else SUM(nb, B.s, t.a[2])
            elif t.op == 'bind':
                r = t
            elif t.op == 'poly':
                parts = []
                for m, c in t.a:
                    x = num(c, t.sort if isinstance(c, int) or t.sort == 'R' else 'R')
                    for a, e in m:
                        g = go(a)
                        if g.op == 'app' and g.a[0] == 'SQRT' and abs(e) >= 2 and _nonneg(ctx, g.a[1]):
                            h, o = divmod(abs(e), 2)
                            b = g.a[1] if e > 0 else inv(g.a[1])
                            for _ in range(h): x = mul(x, b)
                            if o: x = mul(x, g if e > 0 else inv(g))
                            continue
                        if g.op == 'app' and g.a[0] == 'ABS' and e % 2 == 0:
                            g = g.a[1]
                        if e < 0: g = inv(g); e = -e
                        for _ in range(e): x = mul(x, g)
                    parts.append(x)
                r = add(*parts)
            else:
                r = rebuild(t, go)
                if r.op == 'app': r = _rw_app(ctx, r)
                elif r.op == 'ite' and ites:
                    if quick(ctx, r.a[0], 500): r = r.a[1]
                    elif quick(ctx, Not(r.a[0]), 500): r = r.a[2]
            memo[t] = r
            return r
        n = go(t)
        if n is t: return t
        t = n
    return t

def _rw_app(ctx, t):
    f = t.a[0]
    if f == 'EXP':
        a = t.a[1]
        out = None; rest = []
        for m, c in (a.a if a.op == 'poly' else ((((a, 1),), 1),)):
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].a[0] == 'LOG' and Fraction(c).denominator in (1, 2):
                x = m[0][0].a[1]
                if _pos(ctx, x):
                    c = Fraction(c); b = x if c > 0 else inv(x)
                    y = R1
                    for _ in range(abs(c.numerator) // c.denominator if c.denominator == 1 else 0): y = mul(y, b)
                    if c.denominator == 2:
                        y = R1
                        sq = SQRT(x) if c > 0 else inv(SQRT(x))
                        for _ in range(abs(c.numerator)): y = mul(y, sq)
                    out = y if out is None else mul(out, y); continue
            rest.append((m, c))
        if out is not None:
            from .terms import _from_dict
            return mul(out, EXP(_from_dict(dict(rest), 'R')))
        for m, c in rest:
            # EXP(r + ite(b, u, v)) with logarithms in u or v: lift the choice
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite' and any(x.op == 'app' and x.a[0] == 'LOG' for x in atoms(m[0][0])):
                y = m[0][0]; r = sub(a, scale(c, y))
                bs = []
                for g, u in ((y.a[0], y.a[1]), (Not(y.a[0]), y.a[2])):
                    c2 = Ctx(ctx.facts + [g], ctx.qfacts)
                    bs.append(normalise(c2, EXP(add(r, scale(c, u))), 2))
                return ite(y.a[0], bs[0], bs[1])
    elif f == 'LOG':
        a = t.a[1]
        if a.op == 'poly' and len(a.a) == 1:
            m, c = a.a[0]
            if c > 0 and all(_pos(ctx, x) for x, e in m):
                r = LOG(R(c)) if c != 1 else R0
                for x, e in m: r = add(r, scale(e, LOG(x)))
                return r
        # common factor extraction: LOG(EXP(u)*(..)) left to the solver
        if a.op == 'app' and a.a[0] == 'SQRT' and _pos(ctx, a.a[1]): return scale(Fraction(1, 2), LOG(a.a[1]))
    elif f == 'SQRT':
        a = t.a[1]
        if a.op == 'poly' and len(a.a) == 1:
            m, c = a.a[0]
            o = R1; rest = []
            ch = False
            for x, e in m:
                if e % 2 == 0:
                    ch = True
                    y = x if _nonneg(ctx, x) else ABS(x)
                    for _ in range(abs(e) // 2): o = mul(o, y if e > 0 else inv(y))
                elif abs(e) > 2 or (e != 1 and False):
                    rest.append((x, e))
                else: rest.append((x, e))
            sc = SQRT(R(c))
            if isnum(sc) and c != 1 and c > 0: ch = True; o = mul(o, sc); c = 1
            if ch and c > 0:
                from .terms import _from_dict
                inner = _from_dict({tuple(rest): c}, 'R')
                return mul(o, SQRT(inner))
            if ch: return t
        if a.op == 'app' and a.a[0] == 'EXP':
            return EXP(scale(Fraction(1, 2), a.a[1]))
    elif f == 'ABS':
        a = t.a[1]
        if _nonneg(ctx, a): return a
        if _nonneg(ctx, neg(a)): return neg(a)
    elif f == 'PHI':
        a = t.a[1]
        if a.op == 'app' and a.a[0] == 'PHIINV' and quick(ctx, And(lt(R0, a.a[1]), lt(a.a[1], R1))): return a.a[1]
    return t

_bind_cache = {}
def binder_lemmas(ctx, terms, depth, deadline):
    """equalities between binder terms whose bodies are provably equal, sign facts of sums"""
    acc = []; seen = set()
    for t in terms: atoms(t, acc, seen)
    bs = [x for x in acc if x.op in ('sum', 'bind')]
    out = []
    for x in bs:
        if x.op == 'sum':
            b = x.a[1]
            s = sym('$k', 'I', 0)
            body = inst(b, x.a[0], s)
            c2 = Ctx(ctx.facts + [lt(s, x.a[2])], ctx.qfacts)
            iv = interval(body)
            if (iv[0] is not None and iv[0] >= 0) or (len(bs) <= 12 and quick(c2, le(R0, body), 800)): out.append(le(R0, x))
            if len(bs) <= 12 and (body.op == 'app' and body.a[0] == 'EXP' or iv[0] is not None and iv[0] > 0 or _pos(c2, body)): out.append(Implies(lt(I0, x.a[2]), lt(R0, x)))
            out.append(Implies(le(x.a[2], I0), eq(x, R0)))
    cnt = 0
    for i in range(len(bs)):
        for j in range(i):
            p, q = bs[i], bs[j]
            if p.op != q.op: continue
            if p.op == 'sum':
                e = bind_eq(ctx, p, q, depth, deadline)
            else:
                if p.a[0] != q.a[0] or len(p.a[3]) != len(q.a[3]): continue
                e = bind_eq(ctx, p, q, depth, deadline)
            if e is not None and e is not TRUE: out.append(e)
            cnt += 1
            if cnt > 60: return out
    return out

def bind_eq(ctx, p, q, depth, deadline):
    """a fact relating two binder terms, or None"""
    k = (ctx.key(), p.id, q.id)
    if k in _bind_cache: return _bind_cache[k]
    if time.time() > deadline: return None
    _bind_cache[k] = None
    inner = {x for t in ((p.a[1], q.a[1]) if p.op == 'sum' else p.a[3] + q.a[3]) for x in atoms(t) if x.op in ('sum', 'bind')}
    ctx = Ctx([f for f in ctx.facts if all(x.op not in ('sum', 'bind') or x in inner for x in atoms(f))], ctx.qfacts)
    r = None
    if p.op == 'sum':
        g = eq(p.a[2], q.a[2])
        if g is TRUE or prove(ctx, g, depth + 1, 2000).status == 'proved':
            s = sym('$k', 'I', 0)
            a, b = inst(p.a[1], p.a[0], s), inst(q.a[1], q.a[0], s)
            c2 = Ctx(ctx.facts + [lt(s, p.a[2])], ctx.qfacts)
            if prove(c2, eq(a, b), depth + 1, 4000).status == 'proved': r = eq(p, q)
        elif p.a[1] is q.a[1]:
            # same body, consecutive lengths: SUM_{n+1} = SUM_n + body(n)
            d = sub(p.a[2], q.a[2])
            if isnum(d) and abs(val(d)) == 1:
                big, sm = (p, q) if val(d) == 1 else (q, p)
                r = Implies(le(I0, sm.a[2]), eq(big, add(sm, inst(sm.a[1], sm.a[0], sm.a[2]))))
    else:
        kind, lp, so, bp, ep = p.a
        _, lq, _, bq, eq_ = q.a
        if all(x is y for x, y in zip(bp, bq)):
            cond = And(*[eq(x, y) for x, y in zip(ep, eq_)])
            r = Implies(cond, eq(p, q)) if cond is not FALSE else None
        else:
            conds = [eq(x, y) for x, y in zip(ep, eq_)]
            if all(c is TRUE or prove(ctx, c, depth + 1, 2000).status == 'proved' for c in conds):
                s = sym('$x', so, 0)
                c2 = Ctx(ctx.facts, ctx.qfacts)
                ok = True
                # flags first (nan, pinf, ninf), then value under "finite"
                a = [inst(x, lp, s) for x in bp]; b = [inst(x, lq, s) for x in bq]
                if len(a) == 4:
                    goal = And(Iff(a[1], b[1]), Iff(a[2], b[2]), Iff(a[3], b[3]), Or(a[1], a[2], a[3], eq(a[0], b[0])))
                else: goal = And(*[eq(x, y) for x, y in zip(a, b)])
                res = prove(c2, goal, depth + 1, 8000)
                if res.status == 'proved': r = eq(p, q)
    _bind_cache[k] = r
    return r

def conjuncts(g):
    return list(g.a) if g.op == 'and' else [g]

_prove_cache = {}
def prove(ctx, goal, depth=0, timeout=10000):
    if goal is TRUE:
        STATS['simplifier'] += 1; return Result('proved', backend='simplifier')
    if goal in ctx.facts:
        STATS['simplifier'] += 1; return Result('proved', backend='simplifier')
    if goal.op == 'and':
        bk = set()
        for g in goal.a:
            r = prove(ctx, g, depth, timeout)
            if r.status != 'proved': return r
            bk.add(r.backend)
        return Result('proved', backend='+'.join(sorted(bk)))
    k = (ctx.key(), goal.id, timeout)
    r = _prove_cache.get(k)
    if r is None: r = _prove_cache[k] = _prove(ctx, goal, depth, timeout)
    return r

def _prove(ctx, goal, depth, timeout):
    if depth > 6: return Result('unknown', why='depth')
    deadline = time.time() + timeout / 1000.0 * 3
    g = normalise(ctx, goal)
    if g is TRUE:
        STATS['simplifier'] += 1; return Result('proved', backend='rewriter')
    if g.op == 'and': return prove(ctx, g, depth + 1, timeout)
    if g.op in ('le0', 'lt0') and g.a[0].sort == 'R' and any(x.op == 'sum' for x in atoms(g)) and _sgn(ctx, neg(g.a[0]), g.op == 'lt0'):
        return Result('proved', backend='sign rules+z3')
    # case split on the guard of an ite if the goal is an equation between ites
    last = None
    for stage in (0, 1):
        base = relevant(ctx.facts, [g]) if g is not FALSE and stage == 0 else list(ctx.facts)
        if stage == 1 and len(base) == len(relevant(ctx.facts, [g])) and last == 'unknown-full': break
        base = [normalise(ctx, f) for f in base] if depth < 3 else base
        qi = inst_qfacts(ctx, base + [g])
        qi = [normalise(ctx, f, 1) for f in qi] if len(qi) < 40 else qi
        ts = base + qi + [Not(g)]
        bl = binder_lemmas(ctx, [g] + [t for t in base + qi if any(x.op in ('sum', 'bind') for x in atoms(t))], depth, deadline)
        ts += bl
        ax, acc = sym_facts(ts)
        fs = [z(t) for t in ts] + ax
        st, m, _ = _z3check(fs + transc_axioms(acc), min(timeout, 3000))
        if st == 'unsat': return Result('proved', backend='z3')
        if st == 'sat' and stage == 0 and len(base) < len(ctx.facts): continue
        if st == 'sat': return split_index(ctx, goal, depth, timeout) or Result('cex', model=m, backend='z3')
        last = 'unknown-full'
        if depth <= 1:
            # light axioms, then nonlinear tactic, then cvc5
            st, m, _ = _z3check(fs + transc_axioms(acc, heavy=False), timeout)
            if st == 'unsat': return Result('proved', backend='z3')
            if st == 'sat' and not acc_transc(acc): return split_index(ctx, goal, depth, timeout) or Result('cex', model=m, backend='z3')
            st = _cvc5(fs + transc_axioms(acc), min(10, timeout / 1000.0))
            if st == 'unsat': return Result('proved', backend='cvc5')
        break
    r = split_index(ctx, goal, depth, timeout)
    return r or Result('unknown', why='solver gave no answer')

def split_index(ctx, goal, depth, timeout):
    """case split on the position of a table segment relative to an index of the goal"""
    if depth > 0: return None
    segs = [x for x in goal.fv if x.op == 'sym' and x.sort == 'I' and x.a[0].startswith('seg!')]
    if len(segs) != 1: return None
    s = segs[0]
    cand = []
    for x in atoms(goal):
        if x.op == 'app':
            for y in x.a[1:]:
                if isinstance(y, T) and y.sort == 'I' and s not in y.fv and y not in cand and not isnum(y): cand.append(y)
    bk = set()
    base = [i for i in cand if i.op == 'sym'] or cand[:1]
    for i in base:
        for d in (0, 1, -1):
            m = {s: add(i, I(d))}
            c2 = Ctx([subst(f, m) for f in ctx.facts], ctx.qfacts)
            if quick(c2, FALSE): continue
            r = prove(c2, subst(goal, m), depth + 2, timeout)
            if TRACE: print('   split', s, m, r.status)
            if r.status != 'proved': return None
            bk.add(r.backend)
        c2 = Ctx(ctx.facts + [Or(lt(s, add(i, I(-1))), lt(add(i, I1), s))], ctx.qfacts)
        r = prove(c2, goal, depth + 2, timeout)
        if TRACE: print('   split rest', r.status)
        if r.status == 'proved': return Result('proved', backend='+'.join(sorted(bk | {r.backend})))
    return None

def acc_transc(acc): return any(x.op == 'app' and x.a[0] in ('EXP', 'LOG', 'SQRT', 'PHI', 'PHIINV', 'POW') for x in acc)

def satisfiable(ctx, timeout=2000):
    """vacuity guard: are the facts consistent?  True / False / None"""
    ts = list(ctx.facts)
    ts += inst_qfacts(ctx, ts, 10)
    ax, acc = sym_facts(ts)
    st, _, _ = _z3check([z(t) for t in ts] + ax + transc_axioms(acc), timeout)
    return {'sat': True, 'unsat': False}.get(st)

def model_value(m, t):
    """value of a term in a z3 model as Fraction/int/bool"""
    v = m.eval(z(t), model_completion=True)
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    if z3.is_algebraic_value(v):
        a = v.approx(20); return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None
