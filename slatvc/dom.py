"""Machine values: extended reals for doubles, pointers, packed integers, aggregates."""
from .terms import *
import math
from fractions import Fraction

class Unsupported(Exception): pass

class D:
    """double as an extended real: v meaningful only when none of the flags holds"""
    __slots__ = ('v', 'nan', 'pi', 'ni')
    def __init__(self, v, nan=FALSE, pi=FALSE, ni=FALSE): self.v = v; self.nan = nan; self.pi = pi; self.ni = ni
    def key(self): return (self.v, self.nan, self.pi, self.ni)
    def __eq__(self, o): return isinstance(o, D) and self.v is o.v and self.nan is o.nan and self.pi is o.pi and self.ni is o.ni
    def __hash__(self): return hash((self.v.id, self.nan.id, self.pi.id, self.ni.id))
    def __repr__(self):
        if self.nan is TRUE: return 'NaN'
        if self.pi is TRUE: return '+inf'
        if self.ni is TRUE: return '-inf'
        s = repr(self.v)
        if self.nan is not FALSE: s += ' nan?%r' % self.nan
        if self.pi is not FALSE: s += ' +inf?%r' % self.pi
        if self.ni is not FALSE: s += ' -inf?%r' % self.ni
        return 'D<%s>' % s
    def inf(self): return Or(self.pi, self.ni)
    def bad(self): return Or(self.nan, self.pi, self.ni)
    def fin(self): return Not(self.bad())
NAN = D(R0, TRUE); PINF = D(R0, FALSE, TRUE); NINF = D(R0, FALSE, FALSE, TRUE)

def dconst(x):
    if x != x: return NAN
    if x == math.inf: return PINF
    if x == -math.inf: return NINF
    return D(R(Fraction(x)))

class Ptr:
    __slots__ = ('o', 'off', 'idx')
    def __init__(self, o, off=0, idx=()): self.o = o; self.off = off; self.idx = idx
    def __eq__(self, p): return isinstance(p, Ptr) and self.o == p.o and self.off == p.off and len(self.idx) == len(p.idx) and all(a is b for a, b in zip(self.idx, p.idx))
    def __hash__(self): return hash((self.o, self.off))
    def __repr__(self): return '&%s+%d%s' % (self.o, self.off, list(self.idx) if self.idx else '')
NULL = Ptr(None, 0)
class Fn:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __eq__(self, o): return isinstance(o, Fn) and o.name == self.name
    def __hash__(self): return hash(self.name)
    def __repr__(self): return '@' + self.name
class PtrInt:
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
    def __eq__(self, o): return isinstance(o, PtrInt) and o.p == self.p
    def __hash__(self): return hash(self.p)
class Packed:
    """several scalars inside one integer register: [(offset,size,value)]"""
    __slots__ = ('parts',)
    def __init__(self, parts): self.parts = tuple(parts)
    def __eq__(self, o): return isinstance(o, Packed) and o.parts == self.parts
    def __hash__(self): return hash(self.parts)
    def __repr__(self): return 'Packed%r' % (self.parts,)
class Agg:
    __slots__ = ('f',)
    def __init__(self, f): self.f = list(f)
    def __eq__(self, o): return isinstance(o, Agg) and o.f == self.f
    def __hash__(self): return 1
    def __repr__(self): return 'Agg%r' % self.f
class _Undef:
    def __repr__(self): return 'undef'
UNDEF = _Undef()

def terms_of(v):
    if isinstance(v, T): return [v]
    if isinstance(v, D): return [v.v, v.nan, v.pi, v.ni]
    if isinstance(v, Ptr): return list(v.idx)
    if isinstance(v, PtrInt): return list(v.p.idx)
    if isinstance(v, Packed): return [t for p in v.parts for t in terms_of(p[2])]
    if isinstance(v, Agg): return [t for x in v.f for t in terms_of(x)]
    return []
def fv_of(v):
    r = EMPTY
    for t in terms_of(v): r = r | t.fv
    return r
def map_terms(v, g):
    if isinstance(v, T): return g(v)
    if isinstance(v, D): return D(g(v.v), g(v.nan), g(v.pi), g(v.ni))
    if isinstance(v, Ptr): return Ptr(v.o, v.off, tuple(g(x) for x in v.idx)) if v.idx else v
    if isinstance(v, PtrInt): return PtrInt(map_terms(v.p, g))
    if isinstance(v, Packed): return Packed([(o, s, map_terms(x, g)) for o, s, x in v.parts])
    if isinstance(v, Agg): return Agg([map_terms(x, g) for x in v.f])
    return v
def subst_v(v, m):
    if not m: return v
    return map_terms(v, lambda t: subst(t, m))
def map_ptr(v, g):
    if isinstance(v, Ptr): return g(v)
    if isinstance(v, PtrInt): return PtrInt(g(v.p))
    if isinstance(v, Packed): return Packed([(o, s, map_ptr(x, g)) for o, s, x in v.parts])
    if isinstance(v, Agg): return Agg([map_ptr(x, g) for x in v.f])
    return v

class NoMerge(Exception): pass
def merge_v(c, a, b):
    """ite(c, a, b) on values"""
    if a is b or a == b: return a
    if a is UNDEF: return b
    if b is UNDEF: return a
    if isinstance(a, D) and isinstance(b, D):
        nan = Ite(c, a.nan, b.nan); pi = Ite(c, a.pi, b.pi); ni = Ite(c, a.ni, b.ni)
        # value is irrelevant where non-finite
        if a.bad() is TRUE: v = b.v
        elif b.bad() is TRUE: v = a.v
        else: v = ite(c, a.v, b.v)
        return D(v, nan, pi, ni)
    if isinstance(a, T) and isinstance(b, T) and a.sort == b.sort: return ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is not None and a.o == b.o and a.off == b.off and len(a.idx) == len(b.idx):
        return Ptr(a.o, a.off, tuple(ite(c, x, y) for x, y in zip(a.idx, b.idx)))
    if isinstance(a, Packed) and isinstance(b, Packed) and [p[:2] for p in a.parts] == [p[:2] for p in b.parts]:
        return Packed([(p[0], p[1], merge_v(c, p[2], q[2])) for p, q in zip(a.parts, b.parts)])
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
        return Agg([merge_v(c, x, y) for x, y in zip(a.f, b.f)])
    raise NoMerge()

# ------------------------------------------------------------------ arithmetic.  S: simplify flag (decide)
def _z(a): return And(a.fin(), eq(a.v, R0))
def _neg(a): return Or(a.ni, And(a.fin(), lt(a.v, R0)))
def d_add(a, b, S):
    nan = S(Or(a.nan, b.nan, And(a.pi, b.ni), And(a.ni, b.pi)))
    nn = Not(nan)
    return D(add(a.v, b.v), nan, S(And(Or(a.pi, b.pi), nn)), S(And(Or(a.ni, b.ni), nn)))
def d_neg(a): return D(neg(a.v), a.nan, a.ni, a.pi)
def d_sub(a, b, S): return d_add(a, d_neg(b), S)
def d_mul(a, b, S):
    ai, bi = a.inf(), b.inf()
    if ai is FALSE and bi is FALSE:
        return D(mul(a.v, b.v), S(Or(a.nan, b.nan)))
    az, bz = _z(a), _z(b)
    nan = S(Or(a.nan, b.nan, And(ai, bz), And(bi, az)))
    inf = S(And(Or(ai, bi), Not(nan)))
    if inf is FALSE: return D(mul(a.v, b.v), nan)
    an, bn = _neg(a), _neg(b)
    sg = Or(And(an, Not(bn)), And(Not(an), bn))
    return D(mul(a.v, b.v), nan, S(And(inf, Not(sg))), S(And(inf, sg)))
def d_div(a, b, S):
    ai, bi = a.inf(), b.inf()
    bz = S(_z(b)) 
    if bz is FALSE and ai is FALSE and bi is FALSE:
        return D(div(a.v, b.v), S(Or(a.nan, b.nan)))
    az = S(_z(a))
    nan = S(Or(a.nan, b.nan, And(ai, bi), And(az, bz)))
    inf = S(And(Or(And(ai, Not(bi)), And(bz, Not(az))), Not(nan)))
    v = ite(S(bi), R0, div(a.v, b.v)) if bi is not FALSE else div(a.v, b.v)
    if inf is FALSE: return D(v, nan)
    an, bn = _neg(a), _neg(b)
    sg = Or(And(an, Not(bn)), And(Not(an), bn))
    return D(v, nan, S(And(inf, Not(sg))), S(And(inf, sg)))
def d_abs(a): return D(ABS(a.v), a.nan, Or(a.pi, a.ni), FALSE)
def d_sqrt(a, S):
    return D(SQRT(a.v), S(Or(a.nan, a.ni, And(a.fin(), lt(a.v, R0)))), a.pi, FALSE)
def d_exp(a):
    v = EXP(a.v)
    if a.ni is not FALSE: v = ite(a.ni, R0, v)
    return D(v, a.nan, a.pi, FALSE)
def d_log(a, S):
    return D(LOG(a.v), S(Or(a.nan, a.ni, And(a.fin(), lt(a.v, R0)))), a.pi, S(And(a.fin(), eq(a.v, R0))))
def d_phi(a):
    v = PHI(a.v)
    if a.pi is not FALSE: v = ite(a.pi, R1, v)
    if a.ni is not FALSE: v = ite(a.ni, R0, v)
    return D(v, a.nan)
def d_phiinv(p, S):
    f = p.fin()
    return D(PHIINV(p.v), S(Or(p.bad(), lt(p.v, R0), lt(R1, p.v))), S(And(f, eq(p.v, R1))), S(And(f, eq(p.v, R0))))
def d_pow(a, b, S):
    if a.bad() is FALSE and b.bad() is FALSE:
        if isnum(b.v):
            e = Fraction(b.v.a[0])
            if e == Fraction(1, 2): return d_sqrt(a, S)
            if e.denominator == 1 and 0 <= e <= 4: return D(POW(a.v, b.v))
        z0 = S(eq(a.v, R0)); ng = S(lt(a.v, R0))
        bn = S(lt(b.v, R0)); bz = S(eq(b.v, R0))
        v = POW(a.v, b.v)
        v = ite(bz, R1, ite(z0, R0, v))
        return D(v, S(And(ng, Not(bz))), S(And(z0, bn)), FALSE)
    if a.nan is TRUE or b.nan is TRUE: return NAN
    if a.pi is TRUE and b.bad() is FALSE:
        return D(ite(eq(b.v, R0), R1, R0), FALSE, S(lt(R0, b.v)), FALSE)
    raise Unsupported('pow of possibly infinite value')
def d_eq(a, b):
    """IEEE =="""
    ab, bb = a.bad(), b.bad()
    if ab is FALSE and bb is FALSE: return eq(a.v, b.v)
    return Or(And(a.pi, b.pi), And(a.ni, b.ni), And(Not(ab), Not(bb), eq(a.v, b.v)))
def d_lt(a, b):
    ab, bb = a.bad(), b.bad()
    if ab is FALSE and bb is FALSE: return lt(a.v, b.v)
    nn = And(Not(a.nan), Not(b.nan))
    return And(nn, Or(And(a.ni, Not(b.ni)), And(b.pi, Not(a.pi)), And(Not(ab), Not(bb), lt(a.v, b.v))))
def d_le(a, b):
    ab, bb = a.bad(), b.bad()
    if ab is FALSE and bb is FALSE: return le(a.v, b.v)
    nn = And(Not(a.nan), Not(b.nan))
    return And(nn, Or(a.ni, b.pi, And(Not(ab), Not(bb), le(a.v, b.v))))
def d_same(a, b):
    """identical extended real (NaN equals NaN)"""
    if a == b: return TRUE
    ab, bb = a.bad(), b.bad()
    if ab is FALSE and bb is FALSE: return eq(a.v, b.v)
    return And(Iff(a.nan, b.nan), Iff(a.pi, b.pi), Iff(a.ni, b.ni), Or(ab, bb, eq(a.v, b.v)))
