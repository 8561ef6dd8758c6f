"""Inductive loop summaries.

For a loop whose trip count is not a constant, guess closed forms (in the iteration number k) for
everything the body changes, then verify them as an inductive invariant: executing one arbitrary
iteration from the state described at k must give the state described at k+1.  Nothing is accepted
that this verification does not confirm; if it does not, LoopFail is raised."""
from .terms import *
from .dom import *
from .exec import *
from .exec import SLOT, ForkOn
from . import solve
from .solve import Ctx, quick, prove

_uid = [0]
SKFUN = {}       # skolem function -> (hint, ordinal)

class Var:
    __slots__ = ('key', 'ty', 'v0', 'kind', 'c', 'e', 'last', 'hv', 'size')
    def __init__(self, key, v0): self.key = key; self.v0 = v0; self.kind = None; self.c = None; self.e = None; self.last = None; self.hv = None; self.size = None

def dadd_flags(a, b): return D(add(a.v, b.v), Or(a.nan, b.nan), FALSE, FALSE)

class LoopSummary:
    def __init__(self, ex, f, H, p):
        self.ex = ex; self.f = f; self.H = H; self.p = p
        self.st0 = p.st; self.regs0 = p.regs
        _uid[0] += 1
        self.k = sym('k', 'I', 0)
        self.k1 = sub(self.k, I1)
        self.phis = [s for s in f.blocks[H] if s.op == 'phi']
        self.vars = {}           # key -> Var
        self.layers = {}         # (oid, off) -> (size, [(syms, cond, val)])  closed in k
        self.fam = {}            # rank -> family object id
        self.famobj = {}         # family id -> Obj (closed in k)
        self.qf = []             # iteration facts: terms in k
        self.seedable = False
        n = SYMORDN('L'); self.uid = n

    # ------------------------------------------------------------ closed forms
    def at(self, v, t):
        return subst_v(v, {self.k: t})
    def closed(self, x, k):
        if x.kind == 'const': return x.v0
        if x.kind == 'undef': return UNDEF
        if x.kind == 'lin':
            if isinstance(x.v0, Ptr): return Ptr(x.v0.o, x.v0.off + 0, x.v0.idx[:-1] + (add(x.v0.idx[-1], mul(x.c, k)),)) if x.v0.idx else x.v0
            return add(x.v0, mul(x.c, k))
        if x.kind == 'acc':
            e = x.e
            if isinstance(e, D):
                v = add(x.v0.v, SUM(e.v, self.k, k)) if e.v is not R0 else x.v0.v
                nan = x.v0.nan
                if e.nan is not FALSE: nan = Or(nan, self.exists(e.nan, k))
                return D(v, nan)
            return add(x.v0, self.isum(e, k))
        if x.kind == 'last':
            return self.mergek(k, x.v0, subst_v(x.last, {self.k: sub(k, I1)}))
        if x.kind == 'havoc': return x.hv
        raise LoopFail('no closed form')
    def mergek(self, k, v0, v):
        return merge_v(eq(k, I0), v0, v)
    def exists(self, b, k):
        if self.k not in b.fv: return And(lt(I0, k), b)
        return BIND('EX', (b,), self.k, (k,), 'B')
    def isum(self, e, k):
        return BIND('ISUM', (e,), self.k, (k,), 'I')
    def nextv(self, x):
        """value after iteration k according to the closed form"""
        if x.kind in ('const', 'undef'): return self.closed(x, self.k)
        if x.kind == 'lin': return self.closed(x, add(self.k, I1))
        if x.kind == 'acc':
            c = self.closed(x, self.k)
            if isinstance(x.e, D): return D(add(c.v, x.e.v), Or(c.nan, x.e.nan))
            return add(c, x.e)
        if x.kind == 'last': return x.last
        raise LoopFail('no closed form')

    # ------------------------------------------------------------ building the state at iteration k
    def state_at(self, k):
        ex = self.ex
        st = self.st0.fork()
        regs = dict(self.regs0)
        st.assume(le(I0, k))
        for t in self.qf:
            if t is TRUE: continue
            if self.k in t.fv:
                lev, (b,) = close((t,), self.k)
                st.qf.append((I0, k, lev, b)); st._ctx = None
            # facts free of k hold as soon as one iteration was made
            else: st.assume(Implies(lt(I0, k), t))
        for fid, o in self.famobj.items():
            st.mem[fid] = self.obj_at(o, k)
        for (oid, off), (size, ls) in self.layers.items():
            if oid in self.famobj: continue
            o = ex.wobj(st, oid)
            old = o.cells.get(off)
            base = list(old[1]) if old and old[0] == size else []
            for syms, cond, v in ls:
                base.append((syms, subst(cond, {self.k: k}), subst_v(v, {self.k: k})))
            o.cells[off] = (size, base)
        for key, x in self.vars.items():
            v = self.closed(x, k)
            if key[0] == 'phi': regs[key[1]] = v
            elif key[0] == 'cell':
                o = ex.wobj(st, key[1]); 
                for q in [q for q, (s, _) in o.cells.items() if q != key[2] and q < key[2] + x.size and q + s > key[2]]: del o.cells[q]
                o.cells[key[2]] = (x.size, v)
            else:
                o = ex.wobj(st, key[1]); c = o.cells.get(key[2])
                ss = tuple(SLOT(j) for j in range(o.dims))
                lay = (ss, And(*[eq(s, i) for s, i in zip(ss, key[3])]), v)
                o.cells[key[2]] = (x.size, (list(c[1]) if c else []) + [lay])
        return st, regs
    def obj_at(self, o, k):
        r = Obj(o.id, o.kind, o.size, o.stride, o.dims, o.name)
        for off, (s, ls) in o.cells.items():
            r.cells[off] = (s, [(sy, subst(c, {self.k: k}), subst_v(v, {self.k: k})) for sy, c, v in ls])
        return r

    # ------------------------------------------------------------ one iteration
    def iterate(self, st, regs):
        ex = self.ex
        self.mark = dict(SYMCOUNT()); self.idmark = ex.nextid[0]
        self.base = st.fork(); self.basepc = len(st.pc); self.baseqf = len(st.qf)
        p = Path(st, regs, self.H, None, EMPTY)
        back, exits, outs = ex.region_loop(self.f, self.H, [p], True)
        back = [q for q in back if not quick(q.st.ctx(), FALSE)]
        return back, exits, outs
    def merge_back(self, back):
        """one state after the iteration; returns (state, {phi: value})"""
        ex = self.ex
        cur = None
        for q in back:
            vs = [ex.val(q.st, q.regs, s.a[0], s.a[1][q.prev]) for s in self.phis]
            if cur is None: cur = (q.st, vs); continue
            try: s, v = ex.merge2(cur[0], q.st, cur[1], vs, True)
            except NoMerge: raise LoopFail('paths of the body cannot be merged')
            cur = (s, v)
        return cur
    def fresh_syms(self):
        return
    def isfresh(self, t):
        o = SYMORD.get(t)
        return o is not None and o[1] > self.mark.get(o[0], 0) and t is not self.k and not o[0].startswith('$')
    def skolem(self, v):
        return map_terms(v, self.skt)
    def skt(self, t):
        memo = self._skm
        hv = self.hvset
        def go(t):
            if t.op in ('num', 'bv', 'true', 'false'): return t
            r = memo.get(t)
            if r is not None: return r
            if t.op == 'sym':
                r = t
                if t not in hv and self.isfresh(t):
                    h, n = SYMORD[t]
                    nm = 'sk%s_%s_%d' % (self.tag, h, n - self.mark.get(h, 0))
                    if nm not in SKFUN: SKFUN[nm] = ('$fn', SYMORDN('$fn'))
                    iv = SYMINFO.get(t)
                    if iv: UFRANGE[nm] = iv
                    r = app(nm, self.k, sort=t.sort)
            elif t.op == 'app' and t.a[0] in SKFUN and SKFUN[t.a[0]][1] > self.mark.get('$fn', 0) and not t.a[0].startswith('sk%s_' % self.tag):
                nm = 'sk%s_%s' % (self.tag, t.a[0])
                if t.a[0] in UFRANGE: UFRANGE[nm] = UFRANGE[t.a[0]]
                r = app(nm, self.k, *[go(x) for x in t.a[1:]], sort=t.sort)
            else: r = rebuild(t, go)
            memo[t] = r
            return r
        return go(t)
    def iterfacts(self, st):
        out = []
        for t, br in st.pc[self.basepc:]:
            t = self.skt(t)
            if not (t.fv & self.hvset): out.append(t)
        return out
    @property
    def tag(self): return '%s' % self.uid

    # ------------------------------------------------------------ differences caused by the iteration
    def diff(self, st, pv, base_regs):
        """changed locations: {key: (old value at header, new value)}, new layers, objects reachable"""
        ex = self.ex
        scal = {}; lays = {}
        for s, v in zip(self.phis, pv): scal[('phi', s.dst)] = (base_regs[s.dst], v, None)
        for oid, o in st.mem.items():
            b = self.base.mem.get(oid)
            if b is o: continue
            if b is None:
                if oid in ex.globname and oid <= self.idmark: b = ex.gobj(oid)
                elif oid in ex.globname: b = ex.gobj(oid)
                else: continue          # created by the iteration
            if o.freed != b.freed: raise LoopFail('object destroyed inside the loop')
            if o.dims == 0:
                for off, (sz, v) in o.cells.items():
                    c = b.cells.get(off)
                    if c is None: 
                        scal[('cell', oid, off)] = (None, v, sz)
                    elif c[0] != sz: scal[('cell', oid, off)] = (None, v, sz)
                    elif c[1] is not v and c[1] != v: scal[('cell', oid, off)] = (c[1], v, sz)
            else:
                for off, (sz, ls) in o.cells.items():
                    c = b.cells.get(off)
                    bl = c[1] if c and c[0] == sz else []
                    n = 0
                    while n < len(ls) and n < len(bl) and (ls[n] is bl[n] or (ls[n][1] is bl[n][1] and ls[n][2] == bl[n][2])): n += 1
                    if ls[n:] or len(bl) > n: lays[(oid, off)] = (sz, ls[n:], bl[n:])
        return scal, lays

    def solve(self):
        ex = self.ex
        if len(ex.callstack) and False: pass
        ex.discover += 1
        try:
            try: ok = self.guess()
            except (LoopFail, Unsupported) as e:
                # once more, starting from what two concrete iterations show
                if not self.seedable: raise
                fresh = LoopSummary(ex, self.f, self.H, self.p)
                try: ok = fresh.guess(True)
                except (LoopFail, Unsupported): raise e
                self.__dict__.update(fresh.__dict__)
        finally: ex.discover -= 1
        if ok == 'once':
            # the body never comes back: one pass is exact
            back, exits, outs = ex.region_loop(self.f, self.H, [Path(self.st0.fork(), dict(self.regs0), self.H, self.p.prev, EMPTY)])
            if back: raise LoopFail('unstable')
            return exits, outs
        return self.final()

    # ------------------------------------------------------------ guessing
    def guess(self, seed=False):
        ex = self.ex
        # ---- pass 0: first iteration from the initial state
        st = self.st0.fork(); regs = dict(self.regs0)
        for s in self.phis: 
            v0 = ex.val(st, regs, s.a[0], s.a[1][self.p.prev]); regs[s.dst] = v0
            x = self.vars[('phi', s.dst)] = Var(('phi', s.dst), v0); x.kind = 'const'
        self.hvset = frozenset(); self._skm = {}
        back, exits, outs = self.iterate(st, dict(regs))
        if not back: return 'once'
        bst, pv = self.merge_back(back)
        scal, lays = self.diff(bst, pv, regs)
        self.absorb(scal, first=True)
        w0 = self.intstores(lays)
        self.seedable = bool(w0)
        if seed: self.seed_layers(bst, pv, w0)
        # ---- pass 1..: iteration k
        for rnd in range(7):
            self._skm = {}
            self.hvset = frozenset(t for x in self.vars.values() if x.kind == 'havoc' for t in fv_of(x.hv))
            st, regs = self.state_at(self.k)
            self._hdr = regs
            back, exits, outs = self.iterate(st, dict(regs))
            if not back: raise LoopFail('no way around the loop at iteration k')
            bst, pv = self.merge_back(back)
            scal, lays = self.diff(bst, pv, regs)
            self.newobjs(bst)
            self._pend = []
            facts = self.iterfacts(bst)
            ch = self.update(bst, scal, lays)
            nf = [t for t in facts if t is not TRUE]
            nf += [t for t in self.qf if t not in nf and quick(bst.ctx(), t)]
            if set(nf) != set(self.qf):
                self.qf = nf; ch = True
            if not ch: return True
        raise LoopFail('no inductive closed form found')

    def read0(self, key, size):
        """value of a location before the loop"""
        ex = self.ex
        if key[0] == 'cell':
            o = ex.obj(self.st0, key[1]); c = o.cells.get(key[2])
            if c is None or c[0] != size: return None
            return c[1]
        o = ex.obj(self.st0, key[1]); c = o.cells.get(key[2])
        if c is None: return None
        return ex.readlayers(self.st0, c[1], key[3], ('ptr',), len(c[1]) - 1)

    def lin_guess(self, v0, v1):
        if isinstance(v0, T) and isinstance(v1, T) and v0.sort == 'I' and v1.sort == 'I':
            c = sub(v1, v0)
            if isnum(c) and val(c) != 0: return c
        if isinstance(v0, Ptr) and isinstance(v1, Ptr) and v0.o == v1.o and v0.off == v1.off and v0.idx and len(v0.idx) == len(v1.idx) and all(a is b for a, b in zip(v0.idx[:-1], v1.idx[:-1])):
            c = sub(v1.idx[-1], v0.idx[-1])
            if isnum(c) and val(c) != 0: return c
        return None

    def mkvar(self, key, size):
        x = self.vars.get(key)
        if x is None:
            v0 = self.regs0.get(key[1]) if key[0] == 'phi' else self.read0(key, size)
            x = self.vars[key] = Var(key, UNDEF if v0 is None else v0); x.size = size
        return x
    def isstack(self, key): return key[0] == 'cell' and self.ex.obj(self.st0, key[1]).kind == 'stack'

    def absorb(self, scal, first=False):
        for key, (old, new, sz) in scal.items():
            x = self.mkvar(key, sz)
            if x.size is None: x.size = sz
            c = self.lin_guess(x.v0, new)
            if c is not None: x.kind = 'lin'; x.c = c; continue
            if key[0] == 'phi' and (new is x.v0 or new == x.v0): x.kind = 'const'; continue
            self.havoc(x, new)
    def havoc(self, x, new):
        h = x.v0 if x.v0 is not UNDEF else new
        if isinstance(new, D) and isinstance(h, D): x.kind = 'havoc'; x.hv = D(sym('hv', 'R'))
        elif isinstance(new, T) and isinstance(h, T): x.kind = 'havoc'; x.hv = sym('hv', new.sort)
        else: x.kind = 'undef'
    def intstores(self, lays):
        """integers and array positions stored at constant indices by a concrete iteration"""
        out = {}
        for (oid, off), (sz, new, gone) in lays.items():
            if len(new) != 1: continue
            syms, cond, v = new[0]
            idx = self.fixed_idx(oid, cond)
            if idx is not None and len(idx) == 1 and ((isinstance(v, T) and v.sort == 'I' and not any(self.isfresh(x) for x in v.fv)) or (isinstance(v, Ptr) and v.idx and v.o in self.st0.mem)): out[(oid, off)] = (sz, idx[0], v)
        return out
    def seed_layers(self, bst, pv, w0):
        """a second concrete iteration; integers stored at consecutive indices are taken to go on linearly"""
        regs = dict(self.regs0)
        for s, v in zip(self.phis, pv): regs[s.dst] = v
        back, exits, outs = self.iterate(bst.fork(), regs)
        if not back: return
        b2, pv2 = self.merge_back(back)
        scal, lays = self.diff(b2, pv2, regs)
        for key, (sz, i1, v1) in self.intstores(lays).items():
            if key not in w0: continue
            _, i0, v0 = w0[key]
            c = self.lin_guess(v0, v1) if isinstance(v0, Ptr) else sub(v1, v0)
            if sub(i1, i0) is not I1 or c is None or not isnum(c): continue
            s = SLOT(0); w = sub(s, i0)
            v = Ptr(v0.o, v0.off, v0.idx[:-1] + (add(v0.idx[-1], mul(c, w)),)) if isinstance(v0, Ptr) else add(v0, mul(c, w))
            self.layers[key] = (sz, [((s,), And(le(I0, w), lt(w, self.k)), v)])

    def fixed_idx(self, oid, cond):
        """indices when the layer is exactly one cell, else None"""
        o = self.ex.obj(self.st0, oid) if oid in self.st0.mem else None
        n = o.dims if o else 1
        m = {}
        for t in (cond.a if cond.op == 'and' else (cond,)):
            s = solve_eq(t, [SLOT(j) for j in range(n)])
            if s is None: return None
            m[s[0]] = s[1]
        if len(m) != n: return None
        return tuple(m[SLOT(j)] for j in range(n))

    # ------------------------------------------------------------ objects created by an iteration
    def newobjs(self, bst):
        ex = self.ex
        ids = sorted(i for i in bst.mem if i > self.idmark and i not in ex.globname)
        self.rank = {i: n for n, i in enumerate(ids)}
        self.bst = bst
    def mapnew(self, v):
        """rename pointers to objects of this iteration to the family objects"""
        def g(p):
            if p.o in self.rank:
                r = self.rank[p.o]
                fid = self.fam.get(r)
                if fid is None: fid = self.fam[r] = self.ex.newid()
                self._pend.append(p.o)
                return Ptr(fid, p.off, (self.k,) + p.idx)
            return p
        return map_ptr(v, g)
    def build_families(self):
        done = set(); out = {}
        while self._pend:
            oid = self._pend.pop()
            if oid in done: continue
            done.add(oid)
            o = self.bst.mem[oid]
            fid = self.fam[self.rank[oid]]
            if o.freed: raise LoopFail('pointer to a destroyed object kept')
            F = Obj(fid, 'heap', o.size, o.stride, o.dims + 1, 'family:' + (o.name or ''))
            s0 = SLOT(0)
            for off, (sz, c) in o.cells.items():
                src = [((), TRUE, c)] if o.dims == 0 else c
                ls = []
                for syms, cond, v in src:
                    # existing slots shift by one
                    sh = {SLOT(j): SLOT(j + 1) for j in range(o.dims)}
                    cond = self.skt(subst(cond, sh)); v = self.mapnew(self.skolem(subst_v(v, sh)))
                    if fv_of(v) & self.hvset or cond.fv & self.hvset: raise LoopFail('family object depends on an unresolved value')
                    m = {self.k: s0}
                    ls.append((tuple(SLOT(j) for j in range(o.dims + 1)), And(le(I0, s0), lt(s0, self.k), subst(cond, m)), subst_v(v, m)))
                F.cells[off] = (sz, ls)
            out[fid] = F
        return out

    # ------------------------------------------------------------ refine the guess from one symbolic iteration
    def update(self, bst, scal, lays):
        ex = self.ex; ch = False
        k = self.k
        # array writes
        newlay = {}
        acell = {}
        for (oid, off), (sz, new, gone) in lays.items():
            if oid in self.famobj: raise LoopFail('write to an object of an earlier iteration')
            out = []
            for syms, cond, v in new:
                cond = self.skt(cond)
                idx = self.fixed_idx(oid, cond)
                if idx is not None and not any(k in i.fv for i in idx) and not any(i.fv & self.hvset for i in idx):
                    acell[('acell', oid, off, idx)] = (sz, v); continue
                if any(key[0] == 'acell' and key[1] == oid and key[2] == off for key in self.vars) and idx is None: pass
                v = self.mapnew(self.skolem(v))
                hv = (fv_of(v) | cond.fv) & self.hvset
                if hv: out.append(None); continue
                out.append(self.generalise(oid, cond, v))
            if out: newlay[(oid, off)] = (sz, out)
        for key, (sz, v) in acell.items():
            # final value of that cell after the iteration
            o = bst.mem[key[1]]
            vv = ex.readlayers(bst, o.cells[key[2]][1], key[3], ('ptr',), len(o.cells[key[2]][1]) - 1)
            old = None
            scal[key] = (old, vv, sz)
        # also re-read acells known but not changed by visible layers
        # scalars
        unk = {x.key for x in self.vars.values() if x.kind == 'havoc'}
        solved = {}
        for key, (old, new, sz) in scal.items():
            x = self.vars.get(key)
            if x is None:
                x = self.mkvar(key, sz); ch = True
                self.havoc(x, new)
                c = None
                continue
        # candidate next values of all variables
        for key, x in list(self.vars.items()):
            if key in scal: new = scal[key][1]
            elif key[0] == 'phi': new = scal[key][1]
            else: new = self.closed(x, k)         # untouched by this iteration
            if x.kind == 'undef':
                if new is UNDEF: continue
                # an undefined header value may still have a definite value afterwards; it stays undefined
                continue
            if new is UNDEF: 
                if x.kind != 'undef': x.kind = 'undef'; ch = True
                continue
            new = self.skolem(new)
            if x.kind == 'havoc' and key not in scal and key[0] != 'phi': continue
            if x.kind == 'havoc':
                if self.solve_var(x, new): ch = True
            else:
                nv = self.nextv(x)
                if not self.same(bst, nv, new):
                    # refine
                    if x.kind == 'lin' or x.kind == 'const':
                        x.kind = None; self.havoc(x, new); ch = True
                    elif x.kind == 'last':
                        if fv_of(new) & self.hvset: raise LoopFail('last value not stable')
                        try: x.last = self.mapnew(new)
                        except NoMerge: x.kind = 'undef'
                        ch = True
                    else:
                        d = self.delta(new, self.closed(x, k))
                        if d is None: raise LoopFail('accumulator not stable')
                        x.e = d; ch = True
        # layers
        for key, (sz, out) in newlay.items():
            if any(o is None for o in out):
                if not ch and not any(x.kind == 'havoc' for x in self.vars.values()): raise LoopFail('array value unresolved')
                ch = True; continue
            old = self.layers.get(key)
            if old is None or len(old[1]) != len(out) or any(a[1] is not b[1] or a[2] != b[2] for a, b in zip(old[1], out)):
                if old is not None and len(old[1]) == len(out) and all(a[1] is b[1] and self.same(bst, a[2], b[2]) for a, b in zip(old[1], out)): pass
                else:
                    self.layers[key] = (sz, out); ch = True
        for key in list(self.layers):
            if key not in newlay and key[0] not in self.famobj:
                del self.layers[key]; ch = True
        # families
        for x in self.vars.values():
            if x.kind == 'last': pass
        fams = self.build_families()
        for fid, F in fams.items():
            G = self.famobj.get(fid)
            if G is None or not sameobj(F, G): self.famobj[fid] = F; ch = True
        if not ch and any(x.kind == 'havoc' for x in self.vars.values()):
            for x in self.vars.values():
                if x.kind == 'havoc':
                    self.giveup(x); ch = True
        return ch
    def giveup(self, x):
        raise LoopFail('no closed form for %s' % (x.key[1:] if x.key[0] != 'phi' else x.key[1],))

    def generalise(self, oid, cond, v):
        """layer written by iteration k -> layer for all iterations before k"""
        k = self.k
        if k not in cond.fv:
            if k in fv_of(v):
                # same region rewritten every time: the last iteration counts
                return (self.slots(oid), And(cond, lt(I0, k)), subst_v(v, {k: self.k1}))
            return (self.slots(oid), And(cond, lt(I0, k)), v)
        for t in (cond.a if cond.op == 'and' else (cond,)):
            if k in t.fv:
                s = solve_eq(t, [k])
                if s is not None:
                    w = s[1]; m = {k: w}
                    return (self.slots(oid), And(le(I0, w), lt(w, k), subst(cond, m)), subst_v(v, m))
        raise LoopFail('array store at a non-linear index')
    def slots(self, oid):
        o = self.ex.obj(self.st0, oid) if oid in self.st0.mem or oid in self.ex.globname else self.famobj[oid]
        return tuple(SLOT(j) for j in range(o.dims))

    def same(self, st, a, b):
        if a is b or a == b: return True
        if a is UNDEF or b is UNDEF: return a is b
        if type(a) is not type(b): return False
        ctx = st.ctx()
        if isinstance(a, T): return a.sort == b.sort and bool(prove(ctx, eq(a, b), 1, 3000))
        if isinstance(a, D): return bool(prove(ctx, d_same(a, b), 1, 3000))
        if isinstance(a, Ptr): return a.o == b.o and a.off == b.off and len(a.idx) == len(b.idx) and all(x is y or bool(prove(ctx, eq(x, y), 1, 3000)) for x, y in zip(a.idx, b.idx))
        if isinstance(a, Packed): return [p[:2] for p in a.parts] == [p[:2] for p in b.parts] and all(self.same(st, p[2], q[2]) for p, q in zip(a.parts, b.parts))
        return False

    def delta(self, new, x):
        """new - x when free of x, for accumulators"""
        if isinstance(x, D):
            if not isinstance(new, D): return None
            if new.pi is not FALSE or new.ni is not FALSE: return None
            d = self.tdelta(new.v, x.v)
            nan = new.nan
            if x.nan is not FALSE:
                nan = drop(nan, x.nan)
            return None if d is None or nan is None else D(d, nan)
        return self.tdelta(new, x)
    def tdelta(self, t, x):
        d = sub(t, x)
        xs = x.fv if x.op == 'sym' else None
        if x.op == 'sym' and x not in d.fv: return d
        if t.op == 'ite':
            a, b = self.tdelta(t.a[1], x), self.tdelta(t.a[2], x)
            if a is None or b is None or (x.op == 'sym' and x in t.a[0].fv): return None
            return ite(t.a[0], a, b)
        if x.op != 'sym':
            # closed form already substituted
            return d if not has_term(d, x) else None
        if t.op == 'poly':
            # x + ite(c, x' ...) shapes: pull single ite
            for m, c in t.a:
                for y, e in m:
                    if y.op == 'ite' and e == 1 and x in y.fv:
                        a = self.tdelta(replace(t, {y: y.a[1]}), x); b = self.tdelta(replace(t, {y: y.a[2]}), x)
                        if a is None or b is None or x in y.a[0].fv: return None
                        return ite(y.a[0], a, b)
        return None

    def solve_var(self, x, new):
        hs = fv_of(x.hv)
        other = (fv_of(new) & self.hvset) - hs
        if other: return False
        if new is x.hv or new == x.hv:
            x.kind = 'const'
            if x.v0 is UNDEF: x.kind = 'undef'
            return True
        if not (fv_of(new) & hs):
            if isinstance(new, T) and new is x.v0: x.kind = 'const'; return True
            try:
                nn = self.mapnew(new)
                if x.v0 is not UNDEF: merge_v(sym('probe', 'B'), x.v0, nn)
                x.kind = 'last'; x.last = nn; return True
            except NoMerge:
                x.kind = 'undef'; return True
        if x.v0 is UNDEF: x.kind = 'undef'; return True
        if isinstance(x.hv, D):
            d = self.delta(new, x.hv)
            if d is not None and not (fv_of(d) & self.hvset):
                if x.v0.pi is not FALSE or x.v0.ni is not FALSE: raise LoopFail('accumulator starts infinite')
                x.kind = 'acc'; x.e = d; return True
        elif isinstance(x.hv, T) and x.hv.sort == 'I':
            d = self.tdelta(new, x.hv)
            if d is not None and not (d.fv & self.hvset):
                if self.k not in d.fv: x.kind = 'lin'; x.c = d
                else: x.kind = 'acc'; x.e = d
                return True
        elif isinstance(x.hv, T) and x.hv.sort == 'B':
            # monotone flags: x' = x or c(k)  /  x and c(k)
            c = drop(new, x.hv)
            if c is not None: 
                x.kind = 'last'; 
                x.kind = 'accb'; raise LoopFail('flag accumulator')
        self.giveup(x)

    # ------------------------------------------------------------ verification and results
    def final(self):
        ex = self.ex; k = self.k
        self._skm = {}
        self.hvset = frozenset()
        st, regs = self.state_at(k)
        nob = len(ex.obligations)
        back, exits, outs = self.iterate(st, dict(regs))
        if back:
            bst, pv = self.merge_back(back)
            scal, lays = self.diff(bst, pv, regs)
            self.newobjs(bst); self._pend = []
            facts = set(self.iterfacts(bst))
            ch = self.update(bst, scal, lays)
            if ch: raise LoopFail('closed form not inductive')
            for t in self.qf:
                if t not in facts and not prove(bst.ctx(), t, 1, 3000): raise LoopFail('iteration fact not inductive')
        res = []
        iterfacts = set(self.qf)
        for q in exits:
            r = self.close_exit(q, iterfacts)
            if r is not None: res.append(r)
        return res, outs

    def close_exit(self, q, iterfacts):
        """replace the iteration number by its value when the exit determines it"""
        k = self.k
        N = None
        new = [t for t, b in q.st.pc[self.basepc:]]
        for t in new:
            if k not in t.fv: continue
            s = solve_eq(t, [k])
            if s is not None: N = s[1]; break
            if t.op == 'le0' and Not(t) in iterfacts:
                s = solve_lin(t.a[0], k)
                if s is not None and s[0] == -1:      # N - k <= 0
                    n = s[1]
                    ctx = self.base.ctx()
                    if isnum(n): N = n if val(n) > 0 else I0
                    elif quick(Ctx([x for x, b in self.st0.pc], self.st0.qf), le(I0, n)): N = n
                    else: N = ite(lt(I0, n), n, I0)
                    break
        st = q.st
        if N is None: return q
        m = {k: N}
        ns = st.fork()
        ns.pc = []; 
        for t, b in st.pc: 
            t2 = subst(t, m)
            if t2 is FALSE: return None
            if t2 is not TRUE and not any(t2 is y for y, _ in ns.pc): ns.pc.append((t2, b))
        ns.qf = []
        for lo, hi, lev, body in st.qf: ns.qf.append((subst(lo, m), subst(hi, m), lev, subst(body, m)))
        ns._ctx = None
        for oid, o in list(ns.mem.items()):
            if o is self.st0.mem.get(oid): continue
            r = Obj(o.id, o.kind, o.size, o.stride, o.dims, o.name); r.freed = o.freed; r.ro = o.ro
            for off, (s, c) in o.cells.items():
                if o.dims: r.cells[off] = (s, [(sy, subst(cd, m), subst_v(v, m)) if (k in cd.fv or k in fv_of(v)) else (sy, cd, v) for sy, cd, v in c])
                else: r.cells[off] = (s, subst_v(c, m))
            ns.mem[oid] = r
        regs = {a: (subst_v(v, m) if not a.startswith('$') else v) for a, v in q.regs.items()}
        return Path(ns, regs, q.block, q.prev, q.dec)

def SYMORDN(h):
    from . import terms
    n = terms._symn[h] = terms._symn.get(h, 0) + 1
    return n
def SYMCOUNT():
    from . import terms
    return terms._symn

def has_term(t, x): return x in set(atoms(t))
def drop(t, x):
    """t == Or(x, r): return r"""
    if t is x: return FALSE
    if t.op == 'or' and x in t.a: return Or(*[y for y in t.a if y is not x])
    if t.op == 'or' and x.op == 'or' and all(y in t.a for y in x.a): return Or(*[y for y in t.a if y not in x.a])
    if x.op == 'not' or True:
        return None
def solve_eq(t, syms):
    """t is an equation fixing one of syms: (sym, value)"""
    if t.op != 'eq0': return None
    p = t.a[0]
    for s in syms:
        r = solve_lin(p, s)
        if r is not None and abs(r[0]) == 1:
            return s, (neg(r[1]) if r[0] == 1 else r[1])
    return None
def solve_lin(p, s):
    """p = c*s + r with r free of s"""
    if p is s: return 1, I0
    if p.op != 'poly': return None
    c = 0; rest = {}
    for m, co in p.a:
        if m == ((s, 1),): c = co
        elif any(s in x.fv for x, e in m): return None
        else: rest[m] = co
    if c == 0: return None
    from .terms import _from_dict
    return c, _from_dict(rest, p.sort)
def sameobj(F, G):
    if set(F.cells) != set(G.cells): return False
    for off in F.cells:
        a, b = F.cells[off], G.cells[off]
        if a[0] != b[0] or len(a[1]) != len(b[1]): return False
        for x, y in zip(a[1], b[1]):
            if x[1] is not y[1] or not (x[2] is y[2] or x[2] == y[2]): return False
    return True
