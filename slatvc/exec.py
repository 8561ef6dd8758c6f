"""Symbolic execution of LLVM IR with inductive loop summaries."""
import re, time
from .terms import *
from .dom import *
from . import solve
from .solve import Ctx, quick, prove

class PathEnd(Exception):
    """this path stops (assumption false / violation already reported)"""
class NeedSummary(Exception):
    def __init__(self, header): self.header = header
class Violation(Exception): pass
class LoopFail(Unsupported): pass

class Obj:
    __slots__ = ('id', 'kind', 'size', 'stride', 'dims', 'cells', 'freed', 'name', 'owner', 'ro')
    # dims == 0: cells {off: (size, val)};  dims > 0: cells {off: (size, [layer...])}, layer = (syms, cond, val)
    def __init__(self, id, kind, size, stride=None, dims=0, name=''):
        self.id = id; self.kind = kind; self.size = size; self.stride = stride; self.dims = dims
        self.cells = {}; self.freed = False; self.name = name; self.owner = None; self.ro = False
    def clone(self):
        o = Obj(self.id, self.kind, self.size, self.stride, self.dims, self.name)
        o.cells = dict(self.cells); o.freed = self.freed; o.ro = self.ro
        return o

class State:
    __slots__ = ('mem', 'pc', 'qf', 'token', 'locks', 'misc', 'wlog', '_ctx')
    def __init__(self):
        self.mem = {}; self.pc = []; self.qf = []; self.token = object(); self.locks = {}; self.misc = {}; self.wlog = None; self._ctx = None
    def fork(self):
        s = State(); s.mem = dict(self.mem); s.pc = list(self.pc); s.qf = list(self.qf)
        s.locks = dict(self.locks); s.misc = dict(self.misc); s.wlog = self.wlog
        s._ctx = self._ctx
        self.token = object()      # both sides must clone before writing
        return s
    def ctx(self):
        c = self._ctx
        if c is None: c = self._ctx = Ctx([t for t, b in self.pc], self.qf)
        return c
    def assume(self, t, branch=False):
        if t is TRUE: return True
        if t is FALSE: return False
        for x in (t.a if t.op == 'and' else (t,)):
            if not any(x is y for y, _ in self.pc):
                self.pc.append((x, branch))
        self._ctx = None
        return True

class Out:
    __slots__ = ('st', 'kind', 'val')
    def __init__(self, st, kind, val): self.st = st; self.kind = kind; self.val = val

class Path:
    __slots__ = ('st', 'regs', 'block', 'prev', 'dec')
    def __init__(self, st, regs, block, prev, dec=EMPTY): self.st = st; self.regs = regs; self.block = block; self.prev = prev; self.dec = dec

TYINFO_RE = re.compile(r'^_ZTI')

class Exec:
    def __init__(self, mod, dem, opts=None):
        self.mod = mod; self.dem = dem
        self.nextid = [0]
        self.globid = {}; self.globname = {}
        self.strs = {}
        self.tids = {}
        self.opts = dict(maxpaths=400, maxiter=400, unroll=6, transparent=True)
        if opts: self.opts.update(opts)
        self.obligations = []       # dict(id, status, backend, ...)
        self.covers = {}
        self.bounded = []           # notes about bounded unrolling
        self.inputs = {}            # name -> ('kind', term)
        self.fns = set()            # functions executed
        self.loopstat = {}          # (fn, header) -> summary kind
        self.assumptions = set()
        self.steps = 0
        self.loop_depth = 0
        self.discover = 0
        self.deadline = None
        self.callstack = []
        self.intercepts = {}
        self.named_caches = {}
        self.pure_depth = 0
        self.rec = None; self.recmisc = {}; self.pures = {}    # objects read, and results, of abstracted calls
        self.blurs = {}
        self.uf = False; solve.FAST[0] = False             # floating-point operations as uninterpreted functions
        self.lets = {}              # sym -> definition
        self.letof = {}; self.flagof = {}
        self.letfns = {n for n, d in dem.items() if any(d.startswith(x + '(') for x in self.opts.get('let', ()))}
        from . import intrin
        self.intrin = intrin
        intrin.setup(self)

    # ------------------------------------------------------------------ helpers
    def newid(self):
        self.nextid[0] += 1; return self.nextid[0]
    def alloc(self, st, kind, size, stride=None, dims=0, name=''):
        o = Obj(self.newid(), kind, size, stride, dims, name); o.owner = st.token
        st.mem[o.id] = o
        return Ptr(o.id, 0, (I0,) if dims else ())
    def S(self, st):
        ctx = st.ctx()
        def f(t):
            if t is TRUE or t is FALSE: return t
            if quick(ctx, t): return TRUE
            if quick(ctx, Not(t)): return FALSE
            return t
        return f
    def decide(self, st, t):
        if t is TRUE: return True
        if t is FALSE: return False
        c = st.ctx()
        if quick(c, t): return True
        if quick(c, Not(t)): return False
        return None
    def fresh(self, ty, hint='u'):
        k = ty[0]
        if k == 'double' or k == 'float': return D(sym(hint, 'R'), sym(hint + '.nan', 'B'), FALSE, FALSE)
        if k == 'i': return sym(hint, 'B') if ty[1] == 1 else sym(hint, 'I')
        return UNDEF

    # ------------------------------------------------------------------ globals
    def gptr(self, name):
        if name in self.mod.funcs or (name in self.mod.decls and name not in self.mod.globals): return Fn(name)
        if name in self.mod.aliases: return self.gptr(self.mod.aliases[name])
        oid = self.globid.get(name)
        if oid is None:
            oid = self.globid[name] = self.newid(); self.globname[oid] = name
        return Ptr(oid, 0)
    def gobj(self, oid):
        name = self.globname[oid]
        o = Obj(oid, 'glob', None, name=name)
        if name in self.mod.globals:
            ty, init = self.mod.ginit(name)
            try: o.size = self.mod.size(ty)
            except Exception: o.size = None
            if init is not None: self.fill(o.cells, 0, ty, init)
            elif name.startswith('gsl_interp_'): o.cells[0] = (8, self.gptr('$' + name))
        return o
    def fill(self, cells, base, ty, c):
        t = self.mod.resolve(ty); k = c[0]
        if t[0] in ('struct', 'arr'):
            if k == 'zero':
                if t[0] == 'arr' and t[1] * 1 > 4096: return
                for off, lt in self.mod.leaves(t): cells[base + off] = (self.mod.size(lt), self.zero(lt))
            elif k == 'agg':
                if t[0] == 'struct':
                    for j, (et, v) in enumerate(c[1]):
                        o, f = self.mod.field_off(t, j); self.fill(cells, base + o, et, v)
                else:
                    s = self.mod.size(t[2])
                    for j, (et, v) in enumerate(c[1]): self.fill(cells, base + j * s, et, v)
            elif k == 'str':
                for j, b in enumerate(c[1]): cells[base + j] = (1, I(b))
            return
        if k == 'undef': return
        cells[base] = (self.mod.size(t), self.const(t, c))
    def zero(self, t):
        k = t[0]
        if k == 'i': return FALSE if t[1] == 1 else I0
        if k in ('double', 'float'): return D(R0)
        if k == 'ptr': return NULL
        raise Unsupported('zero of %r' % (t,))
    def const(self, ty, c):
        k = c[0]
        if k == 'int':
            if ty[0] == 'i' and ty[1] == 1: return B(c[1] & 1)
            return I(c[1])
        if k == 'fp': return dconst(c[1])
        if k == 'null': return NULL
        if k == 'undef':
            t = self.mod.resolve(ty)
            if t[0] == 'struct': return Agg([UNDEF] * len(t[1]))
            return UNDEF
        if k == 'zero':
            t = self.mod.resolve(ty)
            if t[0] == 'struct': return Agg([self.const(f, c) for f in t[1]])
            return self.zero(t)
        if k == 'glob': return self.gptr(c[1])
        if k == 'agg': return Agg([self.const(t, v) for t, v in c[1]])
        if k == 'ce':
            if c[1] == 'gep':
                base = self.const(c[3][0][0], c[3][0][1])
                return self.gep(None, base, c[2], [(t, self.const(t, v)) for t, v in c[3][1:]])
            if c[1] == 'cast':
                return self.cast(None, c[2], c[3], self.const(c[3], c[4]), c[5])
            if c[1] == 'bin':
                return self.binop(None, c[2], c[3], self.const(c[3], c[4]), self.const(c[3], c[5]))
        raise Unsupported('const %r' % (c,))

    # ------------------------------------------------------------------ memory
    def obj(self, st, oid, what='access'):
        o = st.mem.get(oid)
        if o is None:
            if oid in self.globname: o = self.gobj(oid); st.mem[oid] = o
            else: raise Unsupported('object vanished')
        if self.rec is not None: self.rec.setdefault(oid, o)
        return o
    def wobj(self, st, oid):
        o = self.obj(st, oid)
        if o.owner is not st.token:
            o = o.clone(); o.owner = st.token; st.mem[oid] = o
        return o
    def norm(self, st, o, p):
        """normalise an array pointer: byte offset inside one element"""
        if o.dims and o.stride and not (0 <= p.off < o.stride):
            q, r = divmod(p.off, o.stride)
            p = Ptr(p.o, r, p.idx[:-1] + (add(p.idx[-1], I(q)),))
        return p
    def chk(self, st, p, what):
        if not isinstance(p, Ptr):
            if p is UNDEF: raise Unsupported('%s through an undefined pointer' % what)
            raise Unsupported('%s through %r' % (what, p))
        if p.o is None:
            self.fail(st, 'no-null-dereference', '%s through a null pointer' % what)
        o = self.obj(st, p.o)
        if o.freed:
            self.fail(st, 'no-use-after-free', '%s of destroyed object %s' % (what, o.name or o.kind))
        return o
    def load(self, st, p, ty):
        o = self.chk(st, p, 'read')
        ty = self.mod.resolve(ty)
        if ty[0] in ('struct', 'arr'):
            out = []
            if ty[0] == 'struct':
                for j in range(len(ty[1])):
                    off, f = self.mod.field_off(ty, j); out.append(self.load(st, self.padd(st, p, off), f))
            else:
                s = self.mod.size(ty[2])
                for j in range(ty[1]): out.append(self.load(st, self.padd(st, p, j * s), ty[2]))
            return Agg(out)
        size = self.mod.size(ty)
        p = self.norm(st, o, p)
        v = self.loadcell(st, o, p, size, ty)
        return self.coerce(st, v, ty)
    def padd(self, st, p, k):
        return Ptr(p.o, p.off + k, p.idx)
    def coerce(self, st, v, ty):
        k = ty[0]
        if k == 'i' and isinstance(v, T):
            if ty[1] == 1 and v.sort == 'I': return ne(v, I0)
            if ty[1] > 1 and v.sort == 'B': return ite(v, I1, I0)
        if k == 'double' and isinstance(v, T) and v.sort == 'I' and isnum(v):
            if val(v) == 0: return D(R0)
        if k == 'ptr' and isinstance(v, T) and isnum(v) and val(v) == 0: return NULL
        if k == 'i' and ty[1] > 1 and isinstance(v, (Ptr, Fn)): return PtrInt(v)
        if k == 'ptr' and isinstance(v, PtrInt): return v.p
        if k == 'i' and isinstance(v, Packed) and len(v.parts) == 1 and v.parts[0][0] == 0:
            return self.coerce(st, v.parts[0][2], ty)
        return v
    def loadcell(self, st, o, p, size, ty):
        if not o.dims:
            c = o.cells.get(p.off)
            if c is not None and c[0] == size: return c[1]
            parts = [(k - p.off, s, v) for k, (s, v) in o.cells.items() if p.off <= k < p.off + size]
            if parts:
                parts.sort()
                if any(k + s > size for k, s, v in parts): 
                    if len(parts) == 1 and parts[0][0] == 0:   # narrower read of a wider cell
                        v = parts[0][2]
                        if isinstance(v, T) and v.sort == 'I': return imod(v, I(1 << (8 * size)))
                        if isinstance(v, Packed):
                            r = [q for q in v.parts if q[0] + q[1] <= size]
                            return Packed(r)
                    raise Unsupported('partial read')
                if len(parts) == 1 and parts[0][0] == 0 and isinstance(parts[0][2], T): 
                    return Packed(parts)
                return Packed(parts)
            # reading inside a packed / wider cell
            for k, (s, v) in o.cells.items():
                if k < p.off < k + s:
                    if isinstance(v, Packed):
                        for q in v.parts:
                            if q[0] + k == p.off and q[1] == size: return q[2]
                    if isinstance(v, T) and isnum(v): return I((val(v) >> (8 * (p.off - k))) & ((1 << (8 * size)) - 1))
                    raise Unsupported('read inside a wider cell')
            if o.kind == 'glob' and o.name in self.mod.globals and o.size and o.size > 4096: v = self.zero(ty)
            elif o.kind == 'glob' and o.name not in self.mod.globals: v = self.fresh(ty, 'ext')
            else: v = self.fresh(ty, 'uninit')
            o2 = self.wobj(st, o.id); o2.cells[p.off] = (size, v)
            return v
        c = o.cells.get(p.off)
        if c is None:
            fs = sorted((k, s) for k, (s, l) in o.cells.items() if p.off <= k < p.off + size)
            if fs and not any(k + s > p.off + size for k, s in fs):
                return Packed([(k - p.off, s, self.loadcell(st, o, Ptr(p.o, k, p.idx), s, ('i', 8 * s))) for k, s in fs])
            return self.fresh(ty, 'uninit')
        if c[0] != size:
            if c[0] < size:
                fs = sorted((k, s) for k, (s, l) in o.cells.items() if p.off <= k < p.off + size)
                return Packed([(k - p.off, s, self.loadcell(st, o, Ptr(p.o, k, p.idx), s, ('i', 8 * s))) for k, s in fs])
            raise Unsupported('array cell size mismatch')
        return self.readlayers(st, c[1], p.idx, ty, len(c[1]) - 1)
    def readlayers(self, st, layers, idx, ty, i):
        pend = []
        while i >= 0:
            syms, cond, v = layers[i]
            m = dict(zip(syms, idx))
            g = subst(cond, m)
            d = self.decide(st, g)
            if d is True:
                r = subst_v(v, m); break
            if d is None:
                pend.append((g, subst_v(v, m)))
            i -= 1
        else:
            if pend:
                # reading possibly unwritten memory: fresh value there
                r = UNDEF
                g, v = pend[-1]
                r = v if isinstance(v, Ptr) else UNDEF
            else:
                return self.fresh(ty, 'uninit')
        for g, v in reversed(pend):
            try: r = merge_v(g, v, r)
            except NoMerge: raise ForkOn(g)
        return r
    def store(self, st, p, v, size):
        o = self.chk(st, p, 'write')
        if isinstance(v, Agg): raise Unsupported('aggregate store without type')
        p = self.norm(st, o, p)
        o = self.wobj(st, p.o)
        if st.wlog is not None: st.wlog.add((p.o, p.off, p.idx))
        if not o.dims:
            if isinstance(v, Packed):
                for k, s, x in v.parts: self.store(st, self.padd(st, p, k), x, s)
                return
            c = o.cells.get(p.off)
            if c is None or c[0] != size:
                for k in [k for k, (s, _) in o.cells.items() if k < p.off + size and k + s > p.off]:
                    s, ov = o.cells[k]
                    if k < p.off or k + s > p.off + size:
                        if isinstance(ov, Packed):
                            del o.cells[k]
                            for q in ov.parts: o.cells[k + q[0]] = (q[1], q[2])
                            continue
                        if k == p.off and isinstance(ov, T) and ov is not UNDEF: pass
                    del o.cells[k]
            o.cells[p.off] = (size, v)
            return
        if isinstance(v, Packed):
            for k, s, x in v.parts: self.store(st, Ptr(p.o, p.off + k, p.idx), x, s)
            return
        c = o.cells.get(p.off)
        ss = tuple(SLOT(j) for j in range(o.dims))
        cond = And(*[eq(s, i) for s, i in zip(ss, p.idx)])
        lay = (ss, cond, v)
        if c is None or c[0] != size: o.cells[p.off] = (size, [lay])
        else:
            ls = c[1]
            # overwrite of the same cell
            if ls and ls[-1][1] is cond: ls = ls[:-1]
            o.cells[p.off] = (size, ls + [lay])
    def storety(self, st, p, v, ty):
        ty = self.mod.resolve(ty)
        if isinstance(v, Agg):
            if ty[0] == 'struct':
                for j, x in enumerate(v.f):
                    off, f = self.mod.field_off(ty, j); self.storety(st, self.padd(st, p, off), x, f)
            else:
                s = self.mod.size(ty[2])
                for j, x in enumerate(v.f): self.storety(st, self.padd(st, p, j * s), x, ty[2])
            return
        self.store(st, p, v, self.mod.size(ty))
    def fields_at(self, st, o, p, n):
        """[(relative offset, size)] of scalars in n bytes at p"""
        if not o.dims: return sorted((k - p.off, s) for k, (s, _) in o.cells.items() if p.off <= k and k + s <= p.off + n)
        if o.stride is None: return sorted((k - p.off, s) for k, (s, _) in o.cells.items() if p.off <= k and k + s <= p.off + n)
        out = []
        base = 0
        p = self.norm(st, o, p)
        # element-wise
        k0 = p.off
        for e in range((k0 + n + o.stride - 1) // o.stride):
            for k, (s, _) in o.cells.items():
                a = e * o.stride + k - k0
                if 0 <= a and a + s <= n: out.append((a, s))
        return sorted(out)
    def memcpy(self, st, d, s, n):
        if n == 0: return
        o = self.chk(st, s, 'copy'); self.chk(st, d, 'copy')
        vals = []
        for off, sz in self.fields_at(st, o, s, n):
            q = self.norm(st, o, Ptr(s.o, s.off + off, s.idx))
            vals.append((off, sz, self.loadcell(st, o, q, sz, ('i', 8 * sz))))
        do = self.wobj(st, d.o)
        if not do.dims:
            for k in [k for k, (z, _) in do.cells.items() if d.off <= k and k + z <= d.off + n]:
                if not any(off == k - d.off for off, _, _ in vals): del do.cells[k]
        for off, sz, v in vals: self.store(st, Ptr(d.o, d.off + off, d.idx), v, sz)
    def memset(self, st, d, v, n):
        if not (isinstance(v, T) and isnum(v) and val(v) == 0): raise Unsupported('memset nonzero')
        o = self.wobj(st, d.o)
        if o.dims:
            d = self.norm(st, o, d); k = 0
            known = {q: z for q, (z, _) in o.cells.items() if d.off <= q < d.off + n}
            while k < n:
                z = known.get(d.off + k) or (8 if n - k >= 8 and (d.off + k) % 8 == 0 else 4 if n - k >= 4 and (d.off + k) % 4 == 0 else 1)
                if any(d.off + k < q < d.off + k + z for q in known): raise Unsupported('memset array layout')
                self.store(st, Ptr(d.o, d.off + k, d.idx), I0, z); k += z
            return
        for k in [k for k, (z, _) in o.cells.items() if d.off <= k < d.off + n]: del o.cells[k]
        # zero in 8-byte cells, typed on demand
        k = 0
        while k < n:
            s = 8 if n - k >= 8 and (d.off + k) % 8 == 0 else 4 if n - k >= 4 and (d.off + k) % 4 == 0 else 1
            o.cells[d.off + k] = (s, I0); k += s
        if st.wlog is not None: st.wlog.add((d.o, d.off, ()))

    # ------------------------------------------------------------------ operators
    def gep(self, st, p, base, ops):
        off = 0; dyn = []
        ty = base
        for j, (it, iv) in enumerate(ops):
            if j == 0: sz = self.mod.size(ty)
            else:
                t = self.mod.resolve(ty)
                if t[0] == 'struct':
                    o, ty = self.mod.field_off(t, val(iv)); off += o; continue
                ty = t[2]; sz = self.mod.size(ty)
            if isinstance(iv, T):
                if isnum(iv): off += val(iv) * sz
                else: dyn.append((sz, iv))
            else: raise Unsupported('gep index %r' % (iv,))
        if isinstance(p, Fn): raise Unsupported('gep on function')
        if p is UNDEF: return UNDEF
        if not isinstance(p, Ptr): raise Unsupported('gep on %r' % (p,))
        if not dyn:
            if off == 0: return p
            if p.o is not None and p.idx and st is not None:
                o = self.obj(st, p.o)
                return self.norm(st, o, Ptr(p.o, p.off + off, p.idx))
            return Ptr(p.o, p.off + off, p.idx)
        if p.o is None: raise Unsupported('gep on null')
        o = self.obj(st, p.o)
        if not o.dims or o.stride is None:
            # symbolic index into a fixed object: representable when the index is decided by the facts
            for k, (sz, iv) in enumerate(dyn):
                iv = self.concretise(st, iv)
                if iv is None: raise Unsupported('symbolic index into a fixed-size object')
                off += iv * sz
            return Ptr(p.o, p.off + off, p.idx)
        idx = p.idx[-1]
        for sz, iv in dyn:
            if sz % o.stride == 0: idx = add(idx, scale(sz // o.stride, iv))
            else:
                c = scale(sz, iv)
                if c.op == 'poly' and all(x % o.stride == 0 for m, x in c.a): idx = add(idx, idiv(c, I(o.stride)))
                elif c.op == 'poly' and all(x % o.stride == 0 for m, x in c.a if m != ()):
                    k0 = [x for m, x in c.a if m == ()][0]; off += k0
                    idx = add(idx, idiv(sub(c, I(k0)), I(o.stride)))
                else: raise Unsupported('stride mismatch %d/%d' % (sz, o.stride))
        return self.norm(st, o, Ptr(p.o, p.off + off, p.idx[:-1] + (idx,)))
    def concretise(self, st, t):
        """a constant value forced by the facts, or None"""
        if isnum(t): return val(t)
        iv = interval(t)
        lo = iv[0] if iv[0] is not None else 0
        for k in range(int(lo), int(lo) + 8):
            if quick(st.ctx(), eq(t, I(k))): return k
        return None

    def wrapint(self, st, t, bits, signed=True):
        if isnum(t):
            v = val(t) & ((1 << bits) - 1)
            if v >= 1 << (bits - 1): v -= 1 << bits
            return I(v)
        return t
    def unsigned(self, t, bits):
        if isnum(t): return I(val(t) & ((1 << bits) - 1))
        iv = interval(t)
        if iv[0] is not None and iv[0] >= 0: return t
        return t      # assumption: symbolic sizes and counters stay within their type's common range
    def binop(self, st, op, ty, a, b, fl=()):
        bits = ty[1]
        if a is UNDEF or b is UNDEF: return self.fresh(ty, 'undef')
        if bits == 1:
            a, b = self.tobool(a), self.tobool(b)
            if op == 'and': return And(a, b)
            if op == 'or': return Or(a, b)
            if op in ('xor', 'add', 'sub'): return Not(Iff(a, b))
            raise Unsupported('i1 ' + op)
        if isinstance(a, PtrInt) and isinstance(b, PtrInt) and op == 'sub':
            p, q = a.p, b.p
            if p == q: return I0
            if p.o == q.o and p.o is not None:
                o = self.obj(st, p.o)
                r = I(p.off - q.off)
                if p.idx:
                    if any(x is not y for x, y in zip(p.idx[:-1], q.idx[:-1])) or o.stride is None: raise Unsupported('pointer difference')
                    r = add(r, scale(o.stride, sub(p.idx[-1], q.idx[-1])))
                return r
            raise Unsupported('difference of unrelated pointers')
        if isinstance(a, PtrInt) and isinstance(b, T) and isnum(b) and op in ('and',) : 
            return I0 if val(b) < 8 else a
        if isinstance(a, Packed) or isinstance(b, Packed): return self.packedop(st, op, ty, a, b)
        if not (isinstance(a, T) and isinstance(b, T)): raise Unsupported('int op on %r %r' % (a, b))
        if a.sort == 'B': a = ite(a, I1, I0)
        if b.sort == 'B': b = ite(b, I1, I0)
        if op == 'add': return self.wrapint(st, add(a, b), bits)
        if op == 'sub': return self.wrapint(st, sub(a, b), bits)
        if op == 'mul': return self.wrapint(st, mul(a, b), bits)
        if op == 'shl' and isnum(b): return self.wrapint(st, scale(1 << val(b), a), bits)
        if isnum(a) and isnum(b):
            x, y = val(a), val(b); M = (1 << bits) - 1
            ux, uy = x & M, y & M
            if op == 'and': r = ux & uy
            elif op == 'or': r = ux | uy
            elif op == 'xor': r = ux ^ uy
            elif op == 'lshr': r = ux >> uy
            elif op == 'ashr': r = x >> uy
            elif op == 'udiv': r = ux // uy if uy else 0
            elif op == 'urem': r = ux % uy if uy else 0
            elif op == 'sdiv': r = (abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1) if y else 0
            elif op == 'srem': r = x - y * ((abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1)) if y else 0
            elif op == 'shl': r = ux << uy
            else: raise Unsupported(op)
            return self.wrapint(st, I(r), bits)
        if op in ('udiv', 'sdiv'):
            if isnum(b) and a.op == 'poly' and all(c % val(b) == 0 for m, c in a.a): return idiv(a, b)
            if op == 'sdiv' and 'exact' in fl and isnum(b): return idiv(a, b)
            iv = interval(a)
            if not (iv[0] is not None and iv[0] >= 0) and not self.decide(st, le(I0, a)): raise Unsupported('signed division')
            return idiv(a, b)
        if op in ('urem', 'srem'): 
            iv = interval(a)
            if not (iv[0] is not None and iv[0] >= 0) and not self.decide(st, le(I0, a)): raise Unsupported('signed remainder')
            return imod(a, b)
        if op in ('lshr', 'ashr') and isnum(b): return idiv(a, I(1 << val(b)))
        if op == 'and' and isnum(b):
            m = val(b)
            if m == -1: return a
            if m >= 0 and (m & (m + 1)) == 0: return imod(a, I(m + 1))
        if op == 'and' and isnum(a): return self.binop(st, op, ty, b, a)
        if op == 'xor' and isnum(b) and val(b) == -1: return sub(I(-1), a)
        if op == 'or' and isnum(b) and val(b) == 0: return a
        iv, ib = interval(a), interval(b)
        if op in ('and', 'or', 'xor') and iv == (0, 1) or op in ('and', 'or', 'xor') and (a.op == 'ite' and b.op == 'ite'):
            x, y = ne(a, I0), ne(b, I0)
            return ite({'and': And(x, y), 'or': Or(x, y), 'xor': Not(Iff(x, y))}[op], I1, I0)
        raise Unsupported('int op %s on %r, %r' % (op, a, b))
    def packedop(self, st, op, ty, a, b):
        def parts(x): return list(x.parts) if isinstance(x, Packed) else None
        if isinstance(a, T) and isnum(a): a, b = b, a
        if isinstance(b, T) and isnum(b):
            k = val(b)
            if op == 'lshr':
                s = k // 8
                ps = [(o - s, z, v) for o, z, v in a.parts if o >= s]
                if len(ps) == 1 and ps[0][0] == 0: return ps[0][2] if not (isinstance(ps[0][2], T) and ps[0][2].sort == 'B') else ite(ps[0][2], I1, I0)
                return Packed(ps)
            if op == 'shl': return Packed([(o + k // 8, z, v) for o, z, v in a.parts])
            if op == 'and':
                ps = [(o, z, v) for o, z, v in a.parts if (k >> (8 * o)) & ((1 << (8 * z)) - 1) == (1 << (8 * z)) - 1]
                if all((k >> (8 * o)) & ((1 << (8 * z)) - 1) in (0, (1 << (8 * z)) - 1) for o, z, v in a.parts): return Packed(ps)
            if op == 'or' and k == 0: return a
        if isinstance(a, Packed) and isinstance(b, Packed) and op == 'or': return Packed(sorted(a.parts + b.parts, key=lambda p: p[0]))
        raise Unsupported('packed op ' + op)
    def tobool(self, v):
        if isinstance(v, T): return v if v.sort == 'B' else ne(v, I0)
        if isinstance(v, Packed) and v.parts and v.parts[0][0] == 0: return self.tobool(v.parts[0][2])
        raise Unsupported('bool of %r' % (v,))
    def cast(self, st, op, ty, v, to):
        if op in ('bitcast', 'freeze', 'addrspacecast'): return v
        if v is UNDEF: return self.fresh(to, 'undef')
        if op == 'ptrtoint': return I0 if v == NULL else PtrInt(v)
        if op == 'inttoptr':
            if isinstance(v, PtrInt): return v.p
            if isinstance(v, T) and isnum(v) and val(v) == 0: return NULL
            raise Unsupported('inttoptr')
        if op == 'trunc':
            if isinstance(v, Packed):
                n = to[1] // 8 if to[1] > 1 else 1
                ps = [p for p in v.parts if p[0] + p[1] <= max(n, 1)]
                if to[1] == 1: return self.tobool(ps[0][2])
                if len(ps) == 1: return self.coerce(st, ps[0][2], to)
                return Packed(ps)
            if isinstance(v, PtrInt): return v
            if to[1] == 1:
                if isinstance(v, T) and v.sort == 'B': return v
                if isnum(v): return B(val(v) & 1)
                if v.op == 'ite' and isnum(v.a[1]) and isnum(v.a[2]): return Ite(v.a[0], B(val(v.a[1]) & 1), B(val(v.a[2]) & 1))
                iv = interval(v)
                if iv == (0, 1): return ne(v, I0)
                return ne(imod(v, I(2)), I0)
            if isinstance(v, T) and v.sort == 'B': return v
            return self.wrapint(st, v, to[1])
        if op in ('zext', 'sext'):
            if isinstance(v, T) and v.sort == 'B':
                return ite(v, I1 if op == 'zext' else I(-1), I0)
            if isinstance(v, Packed): return v
            if isinstance(v, PtrInt): return v
            if op == 'zext' and isnum(v): return I(val(v) & ((1 << ty[1]) - 1))
            return v
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, T) and v.sort == 'B': v = ite(v, I1, I0)
            if isinstance(v, Packed) and len(v.parts) == 1: v = v.parts[0][2]
            if op == 'uitofp' and isnum(v): v = I(val(v) & ((1 << ty[1]) - 1))
            if not isinstance(v, T): raise Unsupported('int to fp')
            return D(toR(v))
        if op in ('fptrunc', 'fpext'): return v
        if op in ('fptosi', 'fptoui'):
            if isnum(v.v) and v.bad() is FALSE:
                x = v.v.a[0]; n = abs(x.numerator) // x.denominator
                return I(n if x >= 0 else -n)
            r = app('TRUNC', v.v, sort='I'); return r
        raise Unsupported('cast ' + op)
    def icmp(self, st, pr, ty, a, b):
        if isinstance(a, (Fn,)) or isinstance(b, (Fn,)):
            e = a == b
            if pr == 'eq': return B(e)
            if pr == 'ne': return B(not e)
            raise Unsupported('fn cmp')
        if a is UNDEF or b is UNDEF: return sym('undefcmp', 'B')
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            a = a.p if isinstance(a, PtrInt) else NULL if isinstance(a, T) and isnum(a) and val(a) == 0 else a
            b = b.p if isinstance(b, PtrInt) else NULL if isinstance(b, T) and isnum(b) and val(b) == 0 else b
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o != b.o:
                if pr == 'eq': return FALSE
                if pr == 'ne': return TRUE
                return B((a.o or 0) < (b.o or 0)) if pr[1:] in ('lt', 'le') else B((a.o or 0) > (b.o or 0))     # one order of allocation
            if a.o is not None and a.idx:
                o = self.obj(st, a.o)
                a, b = self.norm(st, o, a), self.norm(st, o, b)
            else: o = None
            if a.off != b.off and not (o and o.stride): e = FALSE
            elif a.off != b.off: e = FALSE
            else: e = And(*[eq(x, y) for x, y in zip(a.idx, b.idx)])
            if pr == 'eq': return e
            if pr == 'ne': return Not(e)
            if a.idx:
                d = sub(a.idx[-1], b.idx[-1]); x = a.off - b.off
                lt_ = Or(lt(a.idx[-1], b.idx[-1]), And(eq(d, I0), B(x < 0)))
                eq_ = e
            else: lt_ = B(a.off < b.off); eq_ = B(a.off == b.off)
            if pr in ('ult', 'slt'): return lt_
            if pr in ('ule', 'sle'): return Or(lt_, eq_)
            if pr in ('ugt', 'sgt'): return Not(Or(lt_, eq_))
            return Not(lt_)
        if isinstance(a, Packed) and len(a.parts) == 1: a = a.parts[0][2]
        if isinstance(b, Packed) and len(b.parts) == 1: b = b.parts[0][2]
        if not (isinstance(a, T) and isinstance(b, T)): raise Unsupported('icmp %r %r' % (a, b))
        if a.sort == 'B' or b.sort == 'B':
            if a.sort != 'B': a = ne(a, I0)
            if b.sort != 'B': b = ne(b, I0)
            if pr == 'eq': return Iff(a, b)
            if pr == 'ne': return Not(Iff(a, b))
            a, b = ite(a, I1, I0), ite(b, I1, I0)
        if pr[0] == 'u' and ty[0] == 'i':
            a, b = self.unsigned(a, ty[1]), self.unsigned(b, ty[1])
        if pr == 'eq': return eq(a, b)
        if pr == 'ne': return ne(a, b)
        k = pr[1:]
        return {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[k](a, b)
    def ufv(self, d):
        """a number as a bare term"""
        if d.bad() is FALSE: return d.v
        return app('UF_val', d.v, d.nan, d.pi, d.ni)
    def ufcmp(self, pr, a, b):
        if pr == 'true': return TRUE
        if pr == 'false': return FALSE
        x, y = self.ufv(a), self.ufv(b)
        if pr in ('uno', 'ord'):
            r = Or(*[app('UF_isnan', t, sort='B') for t in (x, y) if not isnum(t)])
            return r if pr == 'uno' else Not(r)
        k = pr[1:]
        if k in ('gt', 'ge'): k = 'lt' if k == 'gt' else 'le'; x, y = y, x
        if k in ('eq', 'ne') and not y.fv and not y.lev and (x.fv or x.lev): x, y = y, x
        if k == 'ne': return Not(self.ufcmp(('u' if pr[0] == 'o' else 'o') + 'eq', a, b))
        return app('UF_%s%s' % (pr[0], k), x, y, sort='B')
    def fcmp(self, pr, a, b):
        if a is UNDEF or b is UNDEF: return sym('undefcmp', 'B')
        if self.uf and not (isnum(a.v) and isnum(b.v) and a.bad() is FALSE and b.bad() is FALSE): return self.ufcmp(pr, a, b)
        un = Or(a.nan, b.nan)
        if pr == 'true': return TRUE
        if pr == 'false': return FALSE
        if pr == 'uno': return un
        if pr == 'ord': return Not(un)
        k = pr[1:]
        if k == 'eq': r = d_eq(a, b)
        elif k == 'lt': r = d_lt(a, b)
        elif k == 'le': r = d_le(a, b)
        elif k == 'gt': r = d_lt(b, a)
        elif k == 'ge': r = d_le(b, a)
        elif k == 'ne': r = And(Not(un), Not(d_eq(a, b)))
        return Or(un, r) if pr[0] == 'u' else And(Not(un), r)
    def fbin(self, st, op, a, b):
        if a is UNDEF: a = self.fresh(('double',), 'undef')
        if b is UNDEF: b = self.fresh(('double',), 'undef')
        if self.uf and not (isnum(a.v) and isnum(b.v) and a.bad() is FALSE and b.bad() is FALSE):
            return D(app('UF_' + op, self.ufv(a), self.ufv(b)))
        bl = self.opts.get('blur')
        if bl and not (isnum(a.v) and isnum(b.v)) and self.dem.get(self.callstack[-1], '').startswith(bl): return self.blurred(op, a, b)
        S = self.S(st)
        if op == 'fdiv' and self.opts.get('nameflags') and (b.v.op == 'ite' or b.v.op == 'poly' and len(b.v.a) > 1): b = self.name_value(st, b, True)
        if op == 'fadd': r = d_add(a, b, S)
        elif op == 'fsub': r = d_sub(a, b, S)
        elif op == 'fmul': r = d_mul(a, b, S)
        elif op == 'fdiv': r = d_div(a, b, S)
        else: raise Unsupported(op)
        return self.nameflags(st, r) if self.opts.get('nameflags') else r
    def blurred(self, op, a, b):
        """the operation taken as unknown: any number, infinity or undefined value, but undefined if an operand is"""
        self.assumptions.add('floating-point operations of the integrator are left uninterpreted (only: an undefined operand gives an undefined result); rounding is covered')
        k = (op, a.v, a.nan, a.pi, a.ni, b.v, b.nan, b.pi, b.ni)
        r = self.blurs.get(k)
        if r is None:
            nan, pi, ni = (sym('u' + n, 'B') for n in ('nan', 'pi', 'ni'))
            nan = Or(a.nan, b.nan, nan)
            r = self.blurs[k] = D(sym('u', 'R'), nan, And(pi, Not(nan)), And(ni, Not(nan), Not(pi)))
        return r
    def nameflags(self, st, r):
        """compound conditions under which a result is not a number, or infinite, get a name"""
        def go(t):
            if t.op not in ('and', 'or', 'ite', 'not') or t.op == 'not' and t.a[0].op not in ('and', 'or', 'ite'): return t
            s = self.flagof.get(t)
            if s is None: s = self.flagof[t] = sym('flag', 'B')
            st.assume(Iff(s, t))
            return s
        n = D(r.v, go(r.nan), go(r.pi), go(r.ni))
        if (n.pi is not FALSE or n.ni is not FALSE) and n != r:
            for x, y in ((n.nan, n.pi), (n.nan, n.ni), (n.pi, n.ni)): st.assume(Not(And(x, y)))
        return n

    # ------------------------------------------------------------------ obligations
    def where(self):
        return ' < '.join(self.dem.get(f, f).split('(')[0] for f in reversed(self.callstack[-4:]))
    def fail(self, st, oid, msg):
        """an implicit obligation fails on this path (path is feasible as far as known)"""
        if self.discover: raise PathEnd()
        r = prove(st.ctx(), FALSE)
        if r.status == 'proved': raise PathEnd()
        self.obligations.append(dict(id=oid, goal=msg, status='cex' if r.status == 'cex' else 'unknown', model=r.model, ctx=st.ctx(), backend=r.backend, where=self.where()))
        raise PathEnd()
    def check(self, st, oid, goal, desc=None):
        if self.discover:
            st.assume(goal); return
        t0 = time.time()
        if goal is TRUE: desc = 'holds by construction'
        elif callable(desc): desc = desc()
        r = prove(st.ctx(), goal, timeout=self.opts.get('timeout', 10000))
        if r.status != 'proved' and self.lets:
            c = st.ctx(); u = self.unfold(goal)
            if u is not goal: r = prove(Ctx([self.unfold(t) for t in c.facts], c.qfacts), u, timeout=self.opts.get('timeout', 10000))
        self.obligations.append(dict(id=oid, goal=desc or repr(goal)[:2000], status=r.status, model=r.model, ctx=st.ctx(), term=goal, backend=r.backend, where=self.where(), time=time.time() - t0))
        if not st.assume(goal): raise PathEnd()

    # ------------------------------------------------------------------ execution
    def call(self, st, fn, args):
        """execute a call; returns list of Out"""
        if not isinstance(fn, Fn): 
            if fn == NULL or (isinstance(fn, Ptr) and fn.o is None):
                self.fail(st, 'no-null-call', 'call through a null function pointer')
            raise Unsupported('call through %r' % (fn,))
        name = fn.name
        h = self.intercepts.get(name)
        if h is None and name not in self.intercepts:
            h = self.intrin.lookup(self, name)
            self.intercepts[name] = h
        if h is not None:
            return h(self, st, args)
        if name in self.letfns: args = [self.name_value(st, a) for a in args]
        f = self.mod.func(name)
        if f is None: raise Unsupported('external function ' + self.dem.get(name, name))
        if len(self.callstack) > 90: 
            self.fail(st, 'termination', 'unbounded recursion through ' + self.where()) if self.callstack.count(name) > 20 else None
            raise Unsupported('call depth')
        if self.callstack.count(name) > 24:
            self.fail(st, 'termination', 'unbounded recursion of ' + self.dem.get(name, name))
        self.fns.add(name)
        self.callstack.append(name)
        try:
            outs = self.run(st, f, args)
        finally: self.callstack.pop()
        if len(outs) > 1 and self.callstack and not self.inv_fn(f): outs = self.merge_outs(st, outs)
        return outs

    def inv_fn(self, f):
        """a function whose loops are to be handled by invariants and whose paths are kept apart"""
        n = self.opts.get('nomerge')
        return n and self.dem.get(f.name, f.name).startswith(n)
    def name_value(self, st, a, always=False):
        """a compound argument gets a name: a fresh symbol with its definition as a fact"""
        if not isinstance(a, D) or a.v.op in ('num', 'sym', 'bv') or not always and (self.pure_depth or self.loop_depth or self.discover): return a
        s = self.letof.get(a.v)
        if s is None:
            s = sym('let', 'R'); self.lets[s] = a.v; self.letof[a.v] = s
        st.assume(eq(s, a.v))
        return D(s, a.nan, a.pi, a.ni)
    def unfold(self, t):
        for _ in range(20):
            ss = {s: d for s, d in self.lets.items() if s in t.fv}
            if not ss: return t
            t = subst(t, ss)
        return t
    def run(self, st, f, args):
        regs = {}
        for (ty, nm, at), v in zip(f.params, args): regs[nm] = v
        regs['$npc'] = len(st.pc)
        regs['$al'] = []
        outs = []
        try:
            back, exits, outs = self.region(f, [Path(st, regs, f.entry, None)], None)
        except PathEnd: pass
        for o in outs:
            for i in regs['$al']: o.st.mem.pop(i, None)
        return outs

    def region(self, f, paths, L):
        """run paths until they leave the loop L (or the function); returns (back, exits, outs)"""
        loops = self.mod.loops(f)
        body = loops[L] if L is not None else None
        back = []; exits = []; outs = []
        wl = list(paths); total = 0
        while wl:
            p = wl.pop()
            total += 1
            if total > 5000 or len(wl) > self.opts['maxpaths']: raise Unsupported('too many paths')
            if self.deadline and time.time() > self.deadline: raise Unsupported('time budget')
            try: nxt = self.block(f, p, L, body, loops, outs)
            except PathEnd: continue
            for q in nxt:
                todo = [q]
                while todo:
                    q = todo.pop()
                    if L is not None and q.block == L: back.append(q); continue
                    if L is not None and q.block not in body: exits.append(q); continue
                    if q.block in loops and not (q.prev in loops[q.block]):
                        try:
                            ex, os = self.loop(f, q.block, q)
                        except PathEnd: continue
                        outs.extend(os); todo.extend(ex)
                        continue
                    wl.append(q)
        return back, exits, outs

    def block(self, f, p, L, body, loops, outs):
        """execute one basic block; returns successor paths"""
        st, regs = p.st, p.regs
        ins = f.blocks[p.block]
        # phis in parallel
        i = 0; ph = []
        while i < len(ins) and ins[i].op == 'phi':
            ty, inc = ins[i].a; ph.append((ins[i].dst, self.val(st, regs, ty, inc[p.prev]))); i += 1
        for d, v in ph: regs[d] = v
        return self.cont(f, p, i, L, body, loops, outs)

    def cont(self, f, p, i, L, body, loops, outs):
        st, regs = p.st, p.regs
        ins = f.blocks[p.block]; n = len(ins)
        while i < n:
            s = ins[i]; op = s.op; a = s.a
            self.steps += 1
            try:
                if op == 'call':
                    fn = self.val(st, regs, ('ptr',), a[1])
                    args = [self.val(st, regs, t, v) for t, v in a[2]]
                    rs = self.call(st, fn, args)
                    res = []
                    for k, o in enumerate(rs):
                        r2 = regs if k == len(rs) - 1 else dict(regs)
                        if o.kind == 'ret':
                            if s.dst is not None: r2[s.dst] = o.val
                            q = Path(o.st, r2, p.block, p.prev, p.dec)
                            if a[3] is None: res.append(('c', q))
                            else: res.append(('b', Path(o.st, r2, a[3], p.block, p.dec)))
                        elif o.kind == 'throw':
                            if a[4] is None: outs.append(o)
                            else:
                                r2['$exc'] = o.val
                                res.append(('b', Path(o.st, r2, a[4], p.block, p.dec)))
                    if len(res) == 1 and res[0][0] == 'c':
                        p = res[0][1]; st, regs = p.st, p.regs; i += 1; continue
                    nxt = []
                    for kind, q in res:
                        if kind == 'b': nxt.append(q)
                        else:
                            try: nxt += self.cont(f, q, i + 1, L, body, loops, outs)
                            except PathEnd: pass
                    return nxt
                if op == 'load': regs[s.dst] = self.load(st, self.val(st, regs, ('ptr',), a[1]), a[0])
                elif op == 'store': self.storety(st, self.val(st, regs, ('ptr',), a[2]), self.val(st, regs, a[0], a[1]), a[0])
                elif op == 'gep':
                    ops = [(t, self.val(st, regs, t, v)) for t, v in a[1]]
                    regs[s.dst] = self.gep(st, ops[0][1], a[0], ops[1:])
                elif op == 'bin': regs[s.dst] = self.binop(st, a[0], a[1], self.val(st, regs, a[1], a[2]), self.val(st, regs, a[1], a[3]), a[4])
                elif op == 'fbin': regs[s.dst] = self.fbin(st, a[0], self.val(st, regs, a[1], a[2]), self.val(st, regs, a[1], a[3]))
                elif op == 'fneg': 
                    v = self.val(st, regs, a[0], a[1])
                    regs[s.dst] = D(app('UF_neg', self.ufv(v))) if self.uf and not (isnum(v.v) and v.bad() is FALSE) else d_neg(v)
                elif op == 'icmp': regs[s.dst] = self.icmp(st, a[0], a[1], self.val(st, regs, a[1], a[2]), self.val(st, regs, a[1], a[3]))
                elif op == 'fcmp': regs[s.dst] = self.fcmp(a[0], self.val(st, regs, a[1], a[2]), self.val(st, regs, a[1], a[3]))
                elif op == 'cast': regs[s.dst] = self.cast(st, a[0], a[1], self.val(st, regs, a[1], a[2]), a[3])
                elif op == 'alloca':
                    ty, cnt = a
                    sz = self.mod.size(ty)
                    if cnt is None:
                        regs[s.dst] = self.alloc(st, 'stack', sz, name=s.dst); regs['$al'].append(regs[s.dst].o)
                    else:
                        c = self.val(st, regs, cnt[0], cnt[1])
                        if isnum(c): regs[s.dst] = self.alloc(st, 'stack', sz * val(c), name=s.dst)
                        else: regs[s.dst] = self.alloc(st, 'stack', None, stride=sz, dims=1, name=s.dst)
                elif op == 'select':
                    c = self.tobool(self.val(st, regs, ('i', 1), a[0])); x = self.val(st, regs, a[1], a[2]); y = self.val(st, regs, a[1], a[3])
                    try: regs[s.dst] = x if c is TRUE else y if c is FALSE else merge_v(c, x, y)
                    except NoMerge: raise ForkOn(c)
                elif op == 'extractvalue':
                    v = self.val(st, regs, a[0], a[1])
                    for k in a[2]: v = v.f[k]
                    regs[s.dst] = v
                elif op == 'insertvalue':
                    v = self.val(st, regs, a[0], a[1]); e = self.val(st, regs, a[2], a[3])
                    regs[s.dst] = self.insert(a[0], v, e, a[4])
                elif op == 'br':
                    return [Path(st, regs, a[0], p.block, p.dec)]
                elif op == 'cbr':
                    c = self.tobool(self.val(st, regs, ('i', 1), a[0]))
                    if a[1] == a[2]: return [Path(st, regs, a[1], p.block, p.dec)]
                    d = self.decide(st, c)
                    isexit = L is not None and ((a[1] in body) != (a[2] in body))
                    if d is not None:
                        dec = p.dec | {(p.block, 0)} if isexit else p.dec
                        return [Path(st, regs, a[1] if d else a[2], p.block, dec)]
                    if isexit and not self.summ_active(f, L) and (self.inv_fn(f) or ('#', 9) in p.dec or not any(b != p.block and b != '#' for b, _ in p.dec)):
                        raise NeedSummary((f.name, L))
                    s2 = st.fork()
                    r = []
                    if st.assume(c, True): r.append(Path(st, regs, a[1], p.block, p.dec))
                    if s2.assume(Not(c), True): r.append(Path(s2, dict(regs), a[2], p.block, p.dec))
                    return r
                elif op == 'switch':
                    v = self.val(st, regs, a[0], a[1])
                    if isinstance(v, Packed) and len(v.parts) == 1: v = v.parts[0][2]
                    if isinstance(v, T) and v.sort == 'B': v = ite(v, I1, I0)
                    if isnum(v):
                        t = a[2]
                        for cv, lb in a[3]:
                            if cv == val(v): t = lb
                        return [Path(st, regs, t, p.block, p.dec)]
                    r = []; rest = TRUE
                    for cv, lb in a[3]:
                        e = eq(v, I(cv))
                        if self.decide(st, e) is False: continue
                        s2 = st.fork()
                        if s2.assume(e, True): r.append(Path(s2, dict(regs), lb, p.block, p.dec))
                        rest = And(rest, Not(e))
                    if self.decide(st, rest) is not False and st.assume(rest, True): r.append(Path(st, regs, a[2], p.block, p.dec))
                    return r
                elif op == 'ret':
                    outs.append(Out(st, 'ret', self.val(st, regs, a[0], a[1]) if a[1] is not None else None)); return []
                elif op == 'resume':
                    v = self.val(st, regs, ('ptr',), a[0])
                    outs.append(Out(st, 'throw', regs['$exc'])); return []
                elif op == 'landingpad':
                    exc = regs['$exc']     # (ptr, typeinfo name)
                    sel = 0
                    for cl in a[1]:
                        if cl[0] == 'catch':
                            if cl[1][0] == 'null': sel = 1000000; break
                            if self.tisub(exc[1], cl[1][1]): sel = self.tid(cl[1][1]); break
                    if sel == 0 and not any(cl[0] == 'cleanup' for cl in a[1]):
                        outs.append(Out(st, 'throw', exc)); return []
                    regs[s.dst] = Agg([exc[0], I(sel)])
                elif op == 'unreachable':
                    raise PathEnd()
                elif op == 'atomicrmw':
                    ptr = self.val(st, regs, ('ptr',), a[1]); old = self.load(st, ptr, a[2]); v = self.val(st, regs, a[2], a[3])
                    self.store(st, ptr, self.binop(st, a[0], a[2], old, v), self.mod.size(a[2])); regs[s.dst] = old
                elif op in ('nop',): pass
                else: raise Unsupported('instruction ' + op)
            except ForkOn as e:
                s2 = st.fork(); r2 = dict(regs); r = []
                for sx, rx, c in ((st, regs, e.cond), (s2, r2, Not(e.cond))):
                    if sx.assume(c, True):
                        try: r += self.cont(f, Path(sx, rx, p.block, p.prev, p.dec), i, L, body, loops, outs)
                        except PathEnd: pass
                return r
            i += 1
        raise Unsupported('fell off block')

    def insert(self, ty, v, e, ix):
        if v is UNDEF:
            t = self.mod.resolve(ty); v = Agg([UNDEF] * (len(t[1]) if t[0] == 'struct' else t[1]))
        r = Agg(v.f)
        if len(ix) == 1: r.f[ix[0]] = e
        else:
            t = self.mod.resolve(ty)
            r.f[ix[0]] = self.insert(t[1][ix[0]] if t[0] == 'struct' else t[2], r.f[ix[0]], e, ix[1:])
        return r

    def val(self, st, regs, ty, c):
        k = c[0]
        if k == 'loc':
            try: return regs[c[1]]
            except KeyError: raise Unsupported('undefined register ' + c[1])
        if k == 'int':
            if ty[0] == 'i' and ty[1] == 1: return TRUE if c[1] & 1 else FALSE
            return I(c[1])
        return self.const(ty, c)

    # ------------------------------------------------------------------ exceptions
    def tid(self, name):
        if name not in self.tids: self.tids[name] = len(self.tids) + 1
        return self.tids[name]
    def tibases(self, name):
        if name not in self.mod.globals: return []
        try: ty, init = self.mod.ginit(name)
        except Exception: return []
        out = []
        if init and init[0] == 'agg':
            fs = init[1]
            for j, (t, v) in enumerate(fs[2:]):
                if v[0] == 'glob' and v[1].startswith('_ZTI'):
                    off = 0
                    if len(fs) > 4 and j + 3 < len(fs) and fs[j + 3][1][0] == 'int': off = fs[j + 3][1][1] >> 8
                    out.append((v[1], off))
        return out
    def tisub(self, a, b):
        if a == b: return True
        return any(self.tisub(x, b) for x, o in self.tibases(a))
    def tioff(self, a, b, off=0):
        """offset of base b inside a, or None"""
        if a == b: return off
        for x, o in self.tibases(a):
            r = self.tioff(x, b, off + o)
            if r is not None: return r
        return None

    # ------------------------------------------------------------------ merging
    def merge_outs(self, st0, outs):
        rets = [o for o in outs if o.kind == 'ret']
        rest = [o for o in outs if o.kind != 'ret']
        if len(rets) <= 1: return outs
        groups = []
        for o in rets:
            for g in groups:
                try:
                    s, v = self.merge2(g.st, o.st, [g.val], [o.val])
                    g.st = s; g.val = v[0]
                    break
                except NoMerge: continue
            else: groups.append(Out(o.st, 'ret', o.val))
        return groups + rest

    def merge2(self, a, b, va, vb, lenient=False):
        """merge two states forked from a common ancestor; va/vb lists of values"""
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n][0] is b.pc[n][0]: n += 1
        ga = And(*[t for t, br in a.pc[n:] if br]); gb = And(*[t for t, br in b.pc[n:] if br])
        if ga is TRUE and gb is TRUE: raise NoMerge()
        if ga is TRUE: raise NoMerge()
        fa = [t for t, br in a.pc[n:] if not br]; fb = [t for t, br in b.pc[n:] if not br]
        if And(ga, gb) is not FALSE:
            # guards must exclude each other
            c0 = Ctx([t for t, _ in a.pc[:n]], a.qf)
            if not quick(c0, Not(And(ga, gb))): raise NoMerge()
        nq = 0
        while nq < len(a.qf) and nq < len(b.qf) and a.qf[nq] is b.qf[nq]: nq += 1
        if a.locks != b.locks: raise NoMerge()
        vals = []
        c = ga
        for x, y in zip(va, vb):
            if x is None and y is None: vals.append(None); continue
            if x is None or y is None: raise NoMerge()
            vals.append(merge_v(c, x, y))
        mem = {}
        changed = []
        for oid, o in a.mem.items():
            p = b.mem.get(oid)
            if p is None or p is o: mem[oid] = o; continue
            mem[oid] = self.merge_obj(c, ga, gb, o, p, lenient); changed.append(oid)
        for oid, p in b.mem.items():
            if oid not in a.mem: mem[oid] = p
        misc = {}
        for k in set(a.misc) | set(b.misc):
            x, y = a.misc.get(k), b.misc.get(k)
            if x is not y and x != y: raise NoMerge()
            misc[k] = x
        s = State()
        s.mem = mem; s.pc = a.pc[:n]; s.qf = a.qf[:nq]
        for q in a.qf[nq:]: s.qf.append((q[0], q[1], q[2], Implies(ga, q[3])))
        for q in b.qf[nq:]: s.qf.append((q[0], q[1], q[2], Implies(gb, q[3])))
        s.locks = a.locks; s.misc = misc; s.wlog = a.wlog
        s.assume(Or(ga, gb), True)
        for t in fa: s.assume(Implies(ga, t))
        for t in fb: s.assume(Implies(gb, t))
        return s, vals
    def merge_obj(self, c, ga, gb, o, p, lenient=False):
        if o.freed != p.freed or o.dims != p.dims: raise NoMerge()
        r = o.clone(); r.owner = None
        r.cells = {}
        for off in set(o.cells) | set(p.cells):
            x, y = o.cells.get(off), p.cells.get(off)
            if x is y: r.cells[off] = x; continue
            if o.dims:
                lx = x[1] if x else []; ly = y[1] if y else []
                sz = x[0] if x else y[0]
                if x and y and x[0] != y[0]: raise NoMerge()
                n = 0
                while n < len(lx) and n < len(ly) and (lx[n] is ly[n] or (lx[n][1] is ly[n][1] and lx[n][2] == ly[n][2])): n += 1
                out = list(lx[:n])
                sx, sy = lx[n:], ly[n:]
                if len(sx) == 1 and len(sy) == 1 and sx[0][1] is sy[0][1]:
                    try:
                        out.append((sx[0][0], sx[0][1], merge_v(c, sx[0][2], sy[0][2]))); r.cells[off] = (sz, out); continue
                    except NoMerge: pass
                for l in sx: out.append((l[0], And(l[1], ga), l[2]))
                for l in sy: out.append((l[0], And(l[1], gb), l[2]))
                r.cells[off] = (sz, out)
                continue
            if x is None or y is None:
                r.cells[off] = x or y; continue    # written on one side only: uninitialised on the other
            if x[0] != y[0]: raise NoMerge()
            try: r.cells[off] = (x[0], merge_v(c, x[1], y[1]))
            except NoMerge:
                if lenient and o.kind == 'stack': r.cells[off] = (x[0], UNDEF)
                else: raise
        return r

    # ------------------------------------------------------------------ loops
    def summ_active(self, f, L): return (f.name, L) in self._summ
    _summ = set()

    def loop(self, f, H, p0):
        """returns (exit paths, outs)"""
        dec0 = p0.dec
        p0 = Path(p0.st, p0.regs, p0.block, p0.prev, EMPTY)
        ex, os = self.loop1(f, H, p0)
        for q in ex: q.dec = dec0
        return ex, os
    def loop1(self, f, H, p0):
        from .loops import LoopSummary
        key = (f.name, H)
        snap = p0.st.fork(); sregs = dict(p0.regs); nob = len(self.obligations)
        try:
            return self.unroll(f, H, p0, None)
        except NeedSummary as e:
            if e.header != key: raise
        del self.obligations[nob:]
        if self.opts.get('houdini'):
            from .houdini import InvSummary
            try:
                self._summ = self._summ | {key}
                try:
                    r = InvSummary(self, f, H, Path(snap.fork(), dict(sregs), H, p0.prev, EMPTY)).solve()
                    self.note_loop(key, 'invariant')
                    return r
                finally: self._summ = self._summ - {key}
            except LoopFail as e:
                import os, sys
                if os.environ.get('HTRACE'): print('INV FAIL', H, e, file=sys.stderr)
                del self.obligations[nob:]
        st = snap.fork()
        p = Path(st, dict(sregs), H, p0.prev, EMPTY)
        try:
            self._summ = self._summ | {key}
            try:
                r = LoopSummary(self, f, H, p).solve()
                self.note_loop(key, 'summarised')
                return r
            finally: self._summ = self._summ - {key}
        except LoopFail as e:
            if self.discover: raise
            why = str(e)
        if self.opts.get('nobound'): raise Unsupported('loop in %s not summarised: %s' % (self.dem.get(f.name, f.name)[:80], why))
        del self.obligations[nob:]
        self.note_loop(key, 'bounded: ' + why)
        self.bounded.append('%s loop %s: unrolled %d times (%s)' % (self.dem.get(f.name, f.name)[:80], H, self.opts['unroll'], why))
        st = snap.fork()
        self._summ = self._summ | {key}
        try: return self.unroll(f, H, Path(st, dict(sregs), H, p0.prev, EMPTY), self.opts['unroll'])
        finally: self._summ = self._summ - {key}
    def note_loop(self, key, what):
        self.loopstat.setdefault(key, set()).add(what)

    def unroll(self, f, H, p, bound):
        cur = [p]; exits = []; outs = []
        it = 0
        while cur:
            it += 1
            if bound is not None and it > bound: break
            if it > self.opts['maxiter']: raise Unsupported('loop iterations')
            for q in cur:
                q.dec = frozenset([(b, 1) for b, age in q.dec if age == 0 and b != '#'] + [('#', min(it, 9))])     # exits decided in the last iteration
            back, ex, os = self.region_loop(f, H, cur)
            exits += ex; outs += os
            # drop infeasible continuations
            cur = []
            for q in back:
                if bound is not None or len(back) > 1:
                    if quick(q.st.ctx(), FALSE): continue
                cur.append(q)
            if len(cur) > 1: cur = self.merge_paths(f, H, cur)
            if len(cur) > 64: raise Unsupported('too many paths in loop')
        return exits, outs
    def merge_paths(self, f, H, ps):
        """merge paths arriving at the same block"""
        groups = []
        names = [s.dst for s in f.blocks[H] if s.op == 'phi']
        for p in ps:
            for g in groups:
                if g.block != p.block: continue
                try:
                    pv = [(s.dst, self.val(g.st, g.regs, s.a[0], s.a[1][g.prev]), self.val(p.st, p.regs, s.a[0], s.a[1][p.prev])) for s in f.blocks[H] if s.op == 'phi'] if g.prev != p.prev else []
                    if pv: continue
                    ks = [k for k in g.regs if k in p.regs and not k.startswith('$')]
                    ks2 = [k for k in ks if g.regs[k] is not p.regs[k] and g.regs[k] != p.regs[k]]
                    # only values still needed: try all, drop those that cannot merge
                    va = []; vb = []; keep = []
                    for k in ks2:
                        try: merge_v(sym('probe', 'B'), g.regs[k], p.regs[k]); keep.append(k)
                        except NoMerge: pass
                    need = self.live_at(f, H)
                    if any(k in need for k in ks2 if k not in keep): continue
                    s, vals = self.merge2(g.st, p.st, [g.regs[k] for k in keep], [p.regs[k] for k in keep])
                    regs = {k: v for k, v in g.regs.items() if k in p.regs and k not in ks2}
                    for k, v in zip(keep, vals): regs[k] = v
                    g.st = s; g.regs = regs; g.dec = g.dec & p.dec
                    break
                except NoMerge: continue
            else: groups.append(Path(p.st, p.regs, p.block, p.prev, p.dec))
        return groups
    def live_at(self, f, H):
        """registers defined outside-of-block use: conservative set of all used registers from H on"""
        c = getattr(self, '_live', None)
        if c is None: c = self._live = {}
        r = c.get((f.name, H))
        if r is None:
            # blocks reachable from H
            succ = {}
            for b in f.order:
                t = f.blocks[b][-1]
                if t.op == 'br': s = [t.a[0]]
                elif t.op == 'cbr': s = [t.a[1], t.a[2]]
                elif t.op == 'switch': s = [t.a[2]] + [x[1] for x in t.a[3]]
                elif t.op == 'call' and t.a[3]: s = [t.a[3], t.a[4]]
                else: s = []
                succ[b] = s
            use = {}; dfn = {}
            for b in f.order:
                u = set(); d = set()
                for s in f.blocks[b]:
                    for x in locs(s.a):
                        if s.op == 'phi' or x not in d: u.add(x)
                    if s.dst: d.add(s.dst)
                use[b] = u; dfn[b] = d
            live = {b: set(use[b]) for b in f.order}
            ch = True
            while ch:
                ch = False
                for b in reversed(f.order):
                    n = set(use[b])
                    for s in succ[b]: n |= live[s] - dfn[b]
                    if n != live[b]: live[b] = n; ch = True
            for b in f.order: c[(f.name, b)] = live[b]
            r = c[(f.name, H)]
        return r
    def region_loop(self, f, H, paths, skipphi=False):
        """one iteration of loop H for each path at H"""
        loops = self.mod.loops(f); body = loops[H]
        back = []; exits = []; outs = []
        for p in paths:
            try:
                if skipphi:
                    nphi = sum(1 for x in f.blocks[H] if x.op == 'phi')
                    nxt = self.cont(f, p, nphi, H, body, loops, outs)
                else: nxt = self.block(f, p, H, body, loops, outs)
            except PathEnd: continue
            inner = []
            todo = list(nxt)
            while todo:
                q = todo.pop()
                if q.block == H: back.append(q)
                elif q.block not in body: exits.append(q)
                elif q.block in loops and not (q.prev in loops[q.block]):
                    try: ex, os = self.loop(f, q.block, q)
                    except PathEnd: continue
                    outs.extend(os); todo.extend(ex)
                else: inner.append(q)
            if inner:
                b, e, o = self.region(f, inner, H)
                back += b; exits += e; outs += o
        return back, exits, outs

def locs(a):
    out = []
    def go(x):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'loc': out.append(x[1])
        elif isinstance(x, (list, tuple)):
            for y in x: go(y)
        elif isinstance(x, dict):
            for y in x.values(): go(y)
    go(a)
    return out

class ForkOn(Exception):
    def __init__(self, cond): self.cond = cond

_slots = {}
def SLOT(j):
    if j not in _slots: _slots[j] = sym('$slot%d' % j, 'I', fresh=False)
    return _slots[j]
