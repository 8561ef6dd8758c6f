"""Hash-consed terms: integers and reals as normalised polynomials, booleans, uninterpreted
applications, binders (finite sums, integrals, derivatives)."""
from fractions import Fraction

class T:
    __slots__ = ('op', 'a', 'sort', 'id', 'fv', 'lev', '_z', '_iv', '_ap')
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.id < o.id

_tab = {}
_cnt = [0]
EMPTY = frozenset()

def mk(op, a, sort, fv, lev):
    k = (op, a, sort)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t.sort = sort; t.fv = fv; t.lev = lev
        _cnt[0] += 1; t.id = _cnt[0]; t._z = None; t._iv = None; t._ap = None
        _tab[k] = t
    return t

def _u(ts):
    fv = EMPTY; lev = 0
    for t in ts:
        if t.fv: fv = t.fv if not fv else (fv | t.fv)
        if t.lev > lev: lev = t.lev
    return fv, lev

TRUE = mk('true', (), 'B', EMPTY, 0)
FALSE = mk('false', (), 'B', EMPTY, 0)
def B(b): return TRUE if b else FALSE

def num(v, sort):
    if sort == 'R' or not isinstance(v, int):
        v = Fraction(v)
        if sort == 'I':
            assert v.denominator == 1
            v = int(v)
    return mk('num', (v,), sort, EMPTY, 0)
def I(v): return num(v, 'I')
def R(v): return num(v, 'R')
I0, I1 = I(0), I(1)
R0, R1 = R(0), R(1)
def isnum(t): return t.op == 'num'
def val(t): return t.a[0]

_symn = {}
SYMORD = {}       # fresh symbol -> (hint, ordinal)
SYMINFO = {}      # sym -> (lo, hi) interval or None
def sym(name, sort, lo=None, hi=None, fresh=True):
    if fresh:
        hint = name
        n = _symn[hint] = _symn.get(hint, 0) + 1; name = '%s!%d' % (hint, n)
    t = mk('sym', (name,), sort, EMPTY, 0)
    if fresh: SYMORD[t] = (hint, n)
    if not t.fv: t.fv = frozenset([t])
    if lo is not None or hi is not None: SYMINFO[t] = (lo, hi)
    return t
def bv(level, sort): return mk('bv', (level,), sort, EMPTY, 0)

# ---------------------------------------------------------------- polynomials
def _poly_dict(t):
    if t.op == 'poly': return dict(t.a)
    if t.op == 'num': return {(): t.a[0]} if t.a[0] != 0 else {}
    return {((t, 1),): 1}

def _from_dict(d, sort):
    d = {m: c for m, c in d.items() if c != 0}
    if not d: return num(0, sort)
    if len(d) == 1:
        (m, c), = d.items()
        if m == (): return num(c, sort)
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0])))
    fv, lev = _u([x for m, c in items for x, e in m])
    return mk('poly', items, sort, fv, lev)

def _mono_mul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = {}
    for x, e in m1: d[x] = d.get(x, 0) + e
    for x, e in m2: d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda p: p[0].id))

def srt(*ts):
    for t in ts:
        if t.sort == 'R': return 'R'
    return 'I'

def add(*ts):
    s = srt(*ts)
    d = {}
    for t in ts:
        for m, c in (t.a if t.op == 'poly' else _poly_dict(t).items()):
            d[m] = d.get(m, 0) + c
    return _fix_exp(_from_dict(d, s))

def scale(c, t):
    if c == 1: return t
    if t.op == 'num': return num(c * t.a[0], t.sort if not (t.sort == 'I' and isinstance(c, Fraction) and (c*t.a[0]).denominator != 1) else 'R')
    return _from_dict({m: c * k for m, k in _poly_dict(t).items()}, t.sort)
def neg(t): return scale(-1, t)
def sub(a, b): return add(a, neg(b))

class TooBig(Exception): pass

def mul(a, b):
    s = srt(a, b)
    if a.op == 'num': return scale(a.a[0], b) if b.sort == s or b.op != 'num' else num(a.a[0] * b.a[0], s)
    if b.op == 'num': return scale(b.a[0], a)
    pa, pb = _poly_dict(a), _poly_dict(b)
    if len(pa) * len(pb) > 4000: raise TooBig()
    # inverse cancellation: p * p^-1
    if a.op == 'poly' and len(pb) == 1:
        (m, c), = pb.items()
        for x, e in m:
            if e < 0 and x.op == 'poly':
                r = _ratio(a, x)
                if r is not None:
                    m2 = tuple((y, f + 1 if y is x else f) for y, f in m)
                    m2 = tuple((y, f) for y, f in m2 if f != 0)
                    return _fix_exp(_from_dict({m2: c * r}, s))
    if b.op == 'poly' and len(pa) == 1 and any(e < 0 and x.op == 'poly' for x, e in next(iter(pa))) and a.op in ('poly',):
        (m, c), = pa.items()
        for x, e in m:
            if e < 0 and x.op == 'poly':
                r = _ratio(b, x)
                if r is not None:
                    m2 = tuple((y, f + 1 if y is x else f) for y, f in m)
                    m2 = tuple((y, f) for y, f in m2 if f != 0)
                    return _fix_exp(_from_dict({m2: c * r}, s))
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _fix_exp(_from_dict(d, s))

def _ratio(p, q):
    if len(p.a) != len(q.a): return None
    r = None
    for (m1, c1), (m2, c2) in zip(p.a, q.a):
        if m1 != m2: return None
        x = Fraction(c1) / Fraction(c2)
        if r is None: r = x
        elif r != x: return None
    return r

def _fix_exp(t):
    """EXP(a)^i*EXP(b)^j -> EXP(i*a+j*b) inside every monomial"""
    if t.sort != 'R' or t.op != 'poly': return t
    ch = False; d = {}
    for m, c in t.a:
        ex = [(x, e) for x, e in m if x.op == 'app' and x.a[0] == 'EXP']
        if len(ex) > 1 or (len(ex) == 1 and ex[0][1] != 1):
            arg = add(*[scale(e, x.a[1]) for x, e in ex])
            r = EXP(arg)
            rest = tuple((x, e) for x, e in m if not (x.op == 'app' and x.a[0] == 'EXP'))
            for m2, c2 in _poly_dict(r).items():
                mm = _mono_mul(rest, m2); d[mm] = d.get(mm, 0) + c * c2
            ch = True
        else:
            d[m] = d.get(m, 0) + c
    return _from_dict(d, t.sort) if ch else t

def inv(t):
    if t.op == 'num':
        return R(0) if t.a[0] == 0 else R(1 / Fraction(t.a[0]))
    if t.op == 'poly':
        if len(t.a) == 1:
            m, c = t.a[0]
            return _fix_exp(_from_dict({tuple((x, -e) for x, e in m): 1 / Fraction(c)}, 'R'))
        lc = t.a[-1][1]
        p = scale(1 / Fraction(lc), t)
        return _from_dict({((p, -1),): 1 / Fraction(lc)}, 'R')
    return _fix_exp(_from_dict({((t, -1),): 1}, 'R'))
def div(a, b): return mul(toR(a), inv(toR(b)))

def toR(t):
    if t.sort == 'R': return t
    if t.op == 'num': return R(t.a[0])
    if t.op == 'poly':
        d = {}
        r = R0
        for m, c in t.a:
            mm = R(c)
            for x, e in m:
                for _ in range(e): mm = mul(mm, toR(x))
            r = add(r, mm)
        return r
    if t.op == 'ite': return ite(t.a[0], toR(t.a[1]), toR(t.a[2]))
    return mk('app', ('TOR', t), 'R', t.fv, t.lev)

# ---------------------------------------------------------------- applications
NAMED = {}
def app(f, *args, sort='R'):
    fv, lev = _u(args)
    return mk('app', (f,) + tuple(args), sort, fv, lev)

def EXP(t):
    if isnum(t) and t.a[0] == 0: return R1
    # EXP(c*LOG(x)+rest): only c integer and a lone LOG is rewritten by the prover (needs x>0)
    return app('EXP', t)
def LOG(t):
    if isnum(t) and t.a[0] == 1: return R0
    if t.op == 'app' and t.a[0] == 'EXP': return t.a[1]
    return app('LOG', t)
def SQRT(t):
    if isnum(t):
        v = Fraction(t.a[0])
        if v >= 0:
            import math
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator: return R(Fraction(n, d))
    return app('SQRT', t)
def PHI(t): return app('PHI', t)
def PHIINV(t): return app('PHIINV', t)
def ABS(t):
    if isnum(t): return R(abs(t.a[0]))
    iv = interval(t)
    if iv[0] is not None and iv[0] >= 0: return t
    if iv[1] is not None and iv[1] <= 0: return neg(t)
    # |c*m|: normalise the sign of the leading coefficient
    if t.op == 'poly' and t.a[-1][1] < 0: t = neg(t)
    return app('ABS', t)
def POW(a, b):
    if isnum(b) and b.a[0] == 1: return a
    if isnum(b) and b.a[0] == 0: return R1
    if isnum(b) and Fraction(b.a[0]).denominator == 1 and 0 < b.a[0] <= 4:
        r = a
        for _ in range(int(b.a[0]) - 1): r = mul(r, a)
        return r
    return app('POW', a, b)

# ---------------------------------------------------------------- intervals (syntactic)
def interval(t):
    if t._iv is not None: return t._iv
    r = _interval(t)
    if t.op != 'sym': t._iv = r
    return r
def _imul(a, b):
    if a == (0, 0) or b == (0, 0): return (0, 0)
    if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0:
        return (a[0] * b[0], None if a[1] is None or b[1] is None else a[1] * b[1])
    if None in a or None in b: return (None, None)
    ps = [a[0]*b[0], a[0]*b[1], a[1]*b[0], a[1]*b[1]]
    return (min(ps), max(ps))
UFRANGE = {}
def _interval(t):
    op = t.op
    if op == 'num': return (t.a[0], t.a[0])
    if op == 'sym': return SYMINFO.get(t, (None, None))
    if op == 'app':
        f = t.a[0]
        if f == 'EXP': return (0, None)
        if f in ('SQRT', 'ABS'): return (0, None)
        if f == 'PHI': return (0, 1)
        if f == 'TOR': return interval(t.a[1])
        if f == 'MOD' and isnum(t.a[2]): return (0, t.a[2].a[0] - 1)
        if f in UFRANGE: return UFRANGE[f]
        return (None, None)
    if op == 'ite':
        a, b = interval(t.a[1]), interval(t.a[2])
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if op == 'sum':
        b = interval(t.a[1]); return (0 if b[0] is not None and b[0] >= 0 else None, 0 if b[1] is not None and b[1] <= 0 else None)
    if op == 'poly':
        lo, hi = 0, 0
        for m, c in t.a:
            iv = (1, 1)
            for x, e in m:
                xi = interval(x)
                if e % 2 == 0 and e > 0:
                    if xi[0] is not None and xi[1] is not None:
                        xm = max(abs(xi[0]), abs(xi[1])) ** e; xi = (0, xm)
                    else: xi = (0, None)
                elif e < 0:
                    if xi[0] is not None and xi[0] >= 0: xi = (0, None)
                    elif e % 2 == 0: xi = (0, None)
                    else: xi = (None, None)
                elif e > 1:
                    r = xi
                    for _ in range(e - 1): r = _imul(r, xi)
                    xi = r
                iv = _imul(iv, xi)
            if c >= 0: iv = (None if iv[0] is None else c * iv[0], None if iv[1] is None else c * iv[1])
            else: iv = (None if iv[1] is None else c * iv[1], None if iv[0] is None else c * iv[0])
            lo = None if lo is None or iv[0] is None else lo + iv[0]
            hi = None if hi is None or iv[1] is None else hi + iv[1]
        return (lo, hi)
    return (None, None)

# ---------------------------------------------------------------- booleans
def Not(t):
    if t is TRUE: return FALSE
    if t is FALSE: return TRUE
    if t.op == 'not': return t.a[0]
    r = _NOT.get(t)
    if r is None:
        r = _NOT[t] = _Not(t)
    return r
_NOT = {}
def _Not(t):
    if t.op == 'lt0': return mk('le0', (neg(t.a[0]),), 'B', t.fv, t.lev) if not _flip(neg(t.a[0])) else le0(neg(t.a[0]))
    if t.op == 'le0': return lt0(neg(t.a[0]))
    if t.op == 'and': return Or(*[Not(x) for x in t.a])
    if t.op == 'or': return And(*[Not(x) for x in t.a])
    return mk('not', (t,), 'B', t.fv, t.lev)
def _flip(t): return True
def And(*ts):
    s = set(); st = list(ts)
    while st:
        t = st.pop()
        if t is TRUE: continue
        if t is FALSE: return FALSE
        if t.op == 'and': st.extend(t.a); continue
        s.add(t)
    for t in s:
        if Not(t) in s: return FALSE
    if not s: return TRUE
    if len(s) == 1: return next(iter(s))
    # absorption: x & (x | y) = x ; x & (!x | y) -> y
    out = set()
    for t in s:
        if t.op == 'or':
            if any(x in s for x in t.a): continue
            k = [x for x in t.a if Not(x) not in s]
            if len(k) < len(t.a): return And(*([y for y in s if y is not t] + [Or(*k)]))
        out.add(t)
    s = out
    if len(s) == 1: return next(iter(s))
    a = tuple(sorted(s, key=lambda x: x.id)); fv, lev = _u(a)
    return mk('and', a, 'B', fv, lev)
def Or(*ts):
    s = set(); st = list(ts)
    while st:
        t = st.pop()
        if t is FALSE: continue
        if t is TRUE: return TRUE
        if t.op == 'or': st.extend(t.a); continue
        s.add(t)
    for t in s:
        if Not(t) in s: return TRUE
    if not s: return FALSE
    if len(s) == 1: return next(iter(s))
    out = set()
    for t in s:
        if t.op == 'and':
            if any(x in s for x in t.a): continue
            k = [x for x in t.a if Not(x) not in s]
            if len(k) < len(t.a): return Or(*([y for y in s if y is not t] + [And(*k)]))
        out.add(t)
    s = out
    if len(s) == 1: return next(iter(s))
    # factor common conjuncts: (a&b)|(a&!b) = a
    andset = [set(t.a) if t.op == 'and' else {t} for t in s]
    com = set.intersection(*andset)
    if com:
        return And(*com, Or(*[And(*(x - com)) for x in andset]))
    a = tuple(sorted(s, key=lambda x: x.id)); fv, lev = _u(a)
    return mk('or', a, 'B', fv, lev)
def Implies(a, b): return Or(Not(a), b)
def Iff(a, b):
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return Not(b)
    if b is FALSE: return Not(a)
    if Not(a) is b: return FALSE
    return And(Or(Not(a), b), Or(a, Not(b)))

def _prim(t, signed):
    """scale polynomial to leading |coef| 1 (sign kept unless signed False)"""
    if t.op != 'poly': return t
    if t.sort == 'I':
        from math import gcd
        g = 0
        for m, c in t.a:
            if m != (): g = gcd(g, abs(int(c)))
        return t, g
    c = abs(Fraction(t.a[-1][1]))
    return scale(1 / c, t) if c != 1 else t

def _norm(t):
    if t.op == 'poly' and t.sort == 'R':
        c = abs(Fraction(t.a[-1][1]))
        if c != 1: return scale(1 / c, t)
    return t
def _normi(t, strict):
    """integer poly p < 0 (strict) or <= 0 -> canonical q <= 0"""
    if strict: t = add(t, I1)
    if t.op == 'poly':
        from math import gcd
        g = 0; k = 0
        for m, c in t.a:
            if m == (): k = c
            else: g = gcd(g, abs(int(c)))
        if g > 1:
            d = {m: c // g for m, c in t.a if m != ()}
            kk = -((-k) // g)     # ceil(k/g)
            d[()] = kk
            t = _from_dict(d, 'I')
    return t
def _strip_pos(t):
    """real single monomial: drop positive factors"""
    return t
def lt0(t):
    if t.op == 'num': return B(t.a[0] < 0)
    if t.sort == 'I': return le0(add(t, I1))
    iv = interval(t)
    if iv[0] is not None and iv[0] >= 0: return FALSE
    if iv[1] is not None and iv[1] < 0: return TRUE
    if t.op == 'ite' and (isnum(t.a[1]) or isnum(t.a[2])): return Ite(t.a[0], lt0(t.a[1]), lt0(t.a[2]))
    t = _norm(t)
    return mk('lt0', (t,), 'B', t.fv, t.lev)
def le0(t):
    if t.op == 'num': return B(t.a[0] <= 0)
    if t.sort == 'I': 
        t = _normi(t, False)
        if t.op == 'num': return B(t.a[0] <= 0)
    iv = interval(t)
    if iv[1] is not None and iv[1] <= 0: return TRUE
    if iv[0] is not None and iv[0] > 0: return FALSE
    if t.op == 'ite' and (isnum(t.a[1]) or isnum(t.a[2])): return Ite(t.a[0], le0(t.a[1]), le0(t.a[2]))
    t = _norm(t)
    return mk('le0', (t,), 'B', t.fv, t.lev)
def lt(a, b): return lt0(sub(a, b))
def le(a, b): return le0(sub(a, b))
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def eq(a, b):
    if a is b: return TRUE
    if a.sort == 'B': return Iff(a, b)
    if a.op == 'ite' and isnum(b) and (isnum(a.a[1]) or isnum(a.a[2])): return Ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == 'ite' and isnum(a) and (isnum(b.a[1]) or isnum(b.a[2])): return Ite(b.a[0], eq(b.a[1], a), eq(b.a[2], a))
    if a.op == 'ite' and b.op == 'ite' and a.a[0] is b.a[0]: return Ite(a.a[0], eq(a.a[1], b.a[1]), eq(a.a[2], b.a[2]))
    t = sub(a, b)
    if t.op == 'num': return B(t.a[0] == 0)
    iv = interval(t)
    if (iv[0] is not None and iv[0] > 0) or (iv[1] is not None and iv[1] < 0): return FALSE
    if t.op == 'poly':
        if t.sort == 'R':
            lc = Fraction(t.a[-1][1])
            if lc != 1: t = scale(1 / lc, t)
        else:
            if t.a[-1][1] < 0: t = neg(t)
            from math import gcd
            g = 0; k = 0
            for m, c in (t.a if t.op == 'poly' else ()):
                if m == (): k = c
                else: g = gcd(g, abs(int(c)))
            if g > 1:
                if k % g: return FALSE
                t = _from_dict({m: c // g for m, c in t.a}, 'I')
    return mk('eq0', (t,), 'B', t.fv, t.lev)
def ne(a, b): return Not(eq(a, b))
def Ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return Or(And(c, a), And(Not(c), b))
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'B': return Ite(c, a, b)
    if a.sort != b.sort: a, b = toR(a), toR(b)
    if c.op == 'not': return ite(c.a[0], b, a)
    if a.op == 'ite' and a.a[0] is c: return ite(c, a.a[1], b)
    if b.op == 'ite' and b.a[0] is c: return ite(c, a, b.a[2])
    # ite(x==0, 0*.., x) style
    fv, lev = _u((c, a, b))
    return mk('ite', (c, a, b), a.sort, fv, lev)
def Min(a, b): return ite(le(a, b), a, b)
def Max(a, b): return ite(le(a, b), b, a)

# ---------------------------------------------------------------- binders
def close(body_terms, s):
    """replace sym s by a bound variable; returns (level, terms)"""
    lev = 1 + max([t.lev for t in body_terms] + [0])
    b = bv(lev, s.sort)
    return lev, tuple(subst(t, {s: b}) for t in body_terms)

def SUM(body, s, n):
    """sum over 0<=s<n of body(s)"""
    if isnum(n) and n.a[0] <= 0: return R0
    if s not in body.fv: return mul(toR(n), toR(body))
    body = toR(body)
    # linearity
    r = R0
    pt = _point(body, s)
    if pt is not None:
        rest, w, z = pt
        return add(SUM(rest, s, n), ite(And(le(I0, w), lt(w, n)), z, R0))
    for m, c in _poly_dict(body).items():
        dep = [(x, e) for x, e in m if s in x.fv]
        ind = [(x, e) for x, e in m if s not in x.fv]
        if not dep: term = toR(n)
        else:
            d = _from_dict({tuple(dep): 1}, 'R')
            lev, (bt,) = close((d,), s)
            fv, l2 = _u((bt, n))
            term = mk('sum', (lev, bt, n), 'R', fv, max(lev, l2))
        r = add(r, mul(scale(c, _from_dict({tuple(ind): 1}, 'R')), term))
    return r
def _solve_for(g, s):
    """g is  s == w  with w free of s"""
    if g.op != 'eq0': return None
    p = g.a[0]
    if p is s: return I0
    if p.op != 'poly': return None
    c = 0; rest = {}
    for m, co in p.a:
        if m == ((s, 1),): c = co
        elif any(s in x.fv for x, e in m): return None
        else: rest[m] = co
    if c not in (1, -1): return None
    w = _from_dict(rest, 'I')
    return neg(w) if c == 1 else w
def _point(body, s):
    """body = rest + [s==w]*z : (rest, w, z)"""
    for m, c in _poly_dict(body).items():
        for x, e in m:
            if x.op == 'ite' and e == 1 and s in x.a[0].fv:
                w = _solve_for(x.a[0], s)
                if w is None: continue
                others = _from_dict({tuple(q for q in m if q[0] is not x): c}, 'R')
                mono = _from_dict({m: c}, 'R')
                rest = add(sub(body, mono), mul(others, x.a[2]))
                z = subst(mul(others, sub(x.a[1], x.a[2])), {s: w})
                return rest, w, z
    return None
def sum_body(t, at):
    """body of a sum term instantiated at `at`"""
    return inst(t.a[1], t.a[0], at)

def BIND(kind, bodies, s, extra, sort):
    lev, bts = close(tuple(bodies), s)
    fv, l2 = _u(bts + tuple(extra))
    return mk('bind', (kind, lev, s.sort, bts, tuple(extra)), sort, fv, max(lev, l2))

def inst(t, lev, at, memo=None):
    """replace bv(lev) by at (closed)"""
    if memo is None: memo = {}
    def go(t):
        if t.op in ('num', 'sym', 'true', 'false'): return t
        if t.op == 'bv': return at if t.a[0] == lev else t
        r = memo.get(t)
        if r is not None: return r
        if t.op == 'sum':
            if t.a[0] == lev: r = _rebuild_sum(t, go)   # shadowed body
            else: r = _rebuild_sum(t, go, go)
        elif t.op == 'bind':
            if t.a[1] == lev: r = _rebuild_bind(t, go)
            else: r = _rebuild_bind(t, go, go)
        else: r = rebuild(t, go)
        memo[t] = r
        return r
    return go(t)

_tmp = [0]
def _fresh(sort):
    _tmp[0] += 1
    return sym('$b%d' % _tmp[0], sort, fresh=False)
def _rebuild_sum(t, goarg, gobody=None):
    lev, b, n = t.a
    n2 = goarg(n)
    if gobody is None:
        if n2 is n: return t
        s = _fresh('I'); return SUM(inst(b, lev, s), s, n2)
    s = _fresh('I'); SYMINFO[s] = (0, None)
    b2 = gobody(inst(b, lev, s))
    return SUM(b2, s, n2)
def _rebuild_bind(t, goarg, gobody=None):
    kind, lev, so, bts, ex = t.a
    ex2 = tuple(goarg(x) for x in ex)
    s = _fresh(so)
    b2 = tuple(inst(b, lev, s) for b in bts)
    if gobody is not None: b2 = tuple(gobody(x) for x in b2)
    return BIND(kind, b2, s, ex2, t.sort)

def rebuild(t, go):
    op = t.op
    if op == 'poly':
        r = None; parts = []
        for m, c in t.a:
            x = num(c, t.sort if isinstance(c, int) or t.sort == 'R' else 'R')
            for a, e in m:
                g = go(a)
                if e < 0: g = inv(g); e = -e
                for _ in range(e): x = mul(x, g)
            parts.append(x)
        return add(*parts)
    if op == 'app':
        f = t.a[0]; args = [go(x) for x in t.a[1:]]
        h = REB.get(f)
        if h: return h(*args)
        return app(f, *args, sort=t.sort)
    if op == 'ite': return ite(go(t.a[0]), go(t.a[1]), go(t.a[2]))
    if op == 'and': return And(*[go(x) for x in t.a])
    if op == 'or': return Or(*[go(x) for x in t.a])
    if op == 'not': return Not(go(t.a[0]))
    if op == 'eq0':
        x = go(t.a[0]); return eq(x, num(0, x.sort))
    if op == 'lt0': return lt0(go(t.a[0]))
    if op == 'le0': return le0(go(t.a[0]))
    if op == 'sum': return _rebuild_sum(t, go, go)
    if op == 'bind': return _rebuild_bind(t, go, go)
    return t
REB = {'EXP': EXP, 'LOG': LOG, 'SQRT': SQRT, 'ABS': ABS, 'POW': POW, 'TOR': toR}

def idiv(a, b):
    if isnum(a) and isnum(b) and val(b) != 0: return I(val(a) // val(b))
    if isnum(b) and val(b) > 0 and a.op == 'poly' and all(int(c) % val(b) == 0 for m, c in a.a): return _from_dict({m: c // val(b) for m, c in a.a}, 'I')
    if isnum(b) and val(b) == 1: return a
    return app('DIV', a, b, sort='I')
def imod(a, b):
    if isnum(a) and isnum(b) and val(b) != 0: return I(val(a) % val(b))
    if isnum(b):
        iv = interval(a)
        if iv[0] is not None and iv[0] >= 0 and iv[1] is not None and iv[1] < val(b): return a
        if a.op == 'poly' and all(int(c) % val(b) == 0 for m, c in a.a): return I0
    return app('MOD', a, b, sort='I')
REB['DIV'] = idiv; REB['MOD'] = imod

def subst(t, m):
    """m: sym -> term (capture free)"""
    if not m: return t
    keys = frozenset(m)
    memo = {}
    def go(t):
        if not (t.fv & keys): return t
        if t.op == 'sym': return m.get(t, t)
        r = memo.get(t)
        if r is None:
            r = memo[t] = rebuild(t, go)
        return r
    return go(t)

def replace(t, m):
    """replace arbitrary subterms (identity keyed)"""
    memo = {}
    def go(t):
        r = m.get(t)
        if r is not None: return r
        if t.op in ('num', 'sym', 'bv', 'true', 'false'): return t
        r = memo.get(t)
        if r is None: r = memo[t] = rebuild(t, go)
        return r
    return go(t)

def atoms(t, acc=None, seen=None):
    """all subterms, not descending into binder bodies"""
    if acc is None: acc = []; seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x); acc.append(x)
        if x.op == 'poly':
            for m, c in x.a:
                for y, e in m: st.append(y)
        elif x.op == 'app': st.extend(x.a[1:])
        elif x.op == 'sum': st.append(x.a[2])
        elif x.op == 'bind': st.extend(x.a[4])
        elif x.op in ('num', 'sym', 'bv', 'true', 'false'): pass
        else: st.extend(x.a)
    return acc

# ---------------------------------------------------------------- printing
def show(t, d=0):
    if d > 30: return '..'
    op = t.op
    if op == 'num':
        v = t.a[0]
        if isinstance(v, Fraction) and v.denominator > 10**6: return '%.6g' % float(v)
        return str(v)
    if op == 'sym': return t.a[0]
    if op == 'bv': return '#%d' % t.a[0]
    if op in ('true', 'false'): return op
    if op == 'poly':
        out = []
        for m, c in t.a:
            f = []
            if c != 1 or not m: f.append('%.6g' % float(c) if isinstance(c, Fraction) and c.denominator > 10**6 else str(c))
            for x, e in m:
                s = show(x, d + 1)
                if x.op == 'poly': s = '(%s)' % s
                f.append(s if e == 1 else '%s^%d' % (s, e))
            out.append('*'.join(f))
        return ' + '.join(out)
    if op == 'app': return '%s(%s)' % (t.a[0], ', '.join(show(x, d + 1) for x in t.a[1:]))
    if op == 'ite': return '(%s ? %s : %s)' % tuple(show(x, d + 1) for x in t.a)
    if op == 'and': return '(' + ' & '.join(show(x, d + 1) for x in t.a) + ')'
    if op == 'or': return '(' + ' | '.join(show(x, d + 1) for x in t.a) + ')'
    if op == 'not': return '!' + show(t.a[0], d + 1)
    if op == 'eq0': return '(%s == 0)' % show(t.a[0], d + 1)
    if op == 'lt0': return '(%s < 0)' % show(t.a[0], d + 1)
    if op == 'le0': return '(%s <= 0)' % show(t.a[0], d + 1)
    if op == 'sum': return 'SUM{#%d<%s}(%s)' % (t.a[0], show(t.a[2], d + 1), show(t.a[1], d + 1))
    if op == 'bind': return '%s{#%d}(%s; %s)' % (t.a[0], t.a[1], ', '.join(show(x, d + 1) for x in t.a[3]), ', '.join(show(x, d + 1) for x in t.a[4]))
    return '%s%r' % (op, t.a)
