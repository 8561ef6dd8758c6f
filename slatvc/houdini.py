"""Loop invariants found by elimination.

For a loop that has no closed form: everything the body changes is forgotten (given an arbitrary value), then
a set of candidate facts about those values - bounds, orderings, linear relations of the counters seen in the
first iterations - is thinned out until what remains holds on entry and is preserved by every way around the
loop.  What is forgotten and what is kept is re-established by a last execution of the body; paths are not
merged, and the conditions at the loop head are evaluated on each arriving path, so that a path that leaves
the loop because of what the body did keeps what it knows."""
from fractions import Fraction
from .terms import *
from .dom import *
from .exec import *
from .exec import SLOT
from . import solve
from .solve import Ctx, quick, prove
from .loops import LoopSummary
import os, sys, time
TR = os.environ.get('HTRACE')
EPS = R(Fraction(1, 2**52))

# ------------------------------------------------------------------ what a block may do to count as part of the condition
PURE_OPS = {'phi', 'bin', 'fbin', 'fneg', 'icmp', 'fcmp', 'cast', 'select', 'gep', 'load', 'br', 'cbr', 'switch', 'extractvalue', 'insertvalue', 'nop', 'alloca', 'ret', 'unreachable'}
PURE_EXT = ('llvm.fabs', 'llvm.dbg', 'llvm.lifetime', 'vc_isnan', 'vc_isinf', 'vc_isfin', 'vc_sgnbit', 'fabs', 'llvm.fmuladd', 'llvm.expect')
def pure_instr(ex, f, s, depth=0):
    if s.op in PURE_OPS: return True
    if s.op == 'store':
        p = s.a[2]
        if p[0] == 'loc':
            for b in f.order:
                for t in f.blocks[b]:
                    if t.dst == p[1]: return t.op == 'alloca' and depth > 0
        return False
    if s.op == 'call':
        c = s.a[1]
        return c[0] == 'glob' and pure_fn(ex, c[1], depth + 1)
    return False
def pure_fn(ex, name, depth=0):
    memo = ex.__dict__.setdefault('_purefn', {})
    r = memo.get(name)
    if r is not None: return r
    if name.startswith(PURE_EXT): return True
    if depth > 6: return False
    memo[name] = False
    f = ex.mod.func(name)
    if f is not None and ex.intercepts.get(name) is None:
        memo[name] = all(pure_instr(ex, f, s, depth) for b in f.order for s in f.blocks[b])
    return memo[name]

class HV:
    """a changed location"""
    __slots__ = ('key', 'v0', 'size', 'cls', 'kind')
    def __init__(self, key, v0, size, kind): self.key = key; self.v0 = v0; self.size = size; self.kind = kind; self.cls = None
class Cls:
    """locations with equal values; what they are known to hold at the loop head"""
    __slots__ = ('kind', 'v', 'may', 'n')
    def __init__(self, kind, n):
        self.kind = kind; self.n = n; self.may = set()
        if kind == 'D': self.v = (sym('h', 'R'), sym('hnan', 'B'), sym('hpi', 'B'), sym('hni', 'B'))
        elif kind == 'I': self.v = (sym('h', 'I'),)
        else: self.v = (sym('h', 'B'),)
    def value(self):
        if self.kind == 'b': return ite(self.v[0], I1, I0)
        if self.kind != 'D': return self.v[0]
        f = lambda n, t: t if n in self.may else FALSE
        return D(self.v[0], f('nan', self.v[1]), f('pi', self.v[2]), f('ni', self.v[3]))
    def subst(self, x):
        if self.kind == 'b': return {self.v[0]: ne(x, I0)}
        if self.kind != 'D': return {self.v[0]: x}
        return dict(zip(self.v, (x.v, x.nan, x.pi, x.ni)))

class Restart(Exception): pass

class InvSummary(LoopSummary):
    def __init__(self, ex, f, H, p):
        LoopSummary.__init__(self, ex, f, H, p)
        self.loops = ex.mod.loops(f); self.body = self.loops[H]
        self.hv = {}             # key -> HV
        self.gone = set()        # keys left undefined
        self.classes = []
        self.cands = None        # [(name, term over class symbols)]
        self.cb = self.condition_blocks()
        # names of candidates seen to fail; a surrounding loop's facts only get weaker, so what failed here before fails again
        self.dropped = ex.__dict__.setdefault('_carry', [{}])[-1].setdefault((f.name, H), set())
        self.samples = None
        self.arr = {}            # oid -> ArrInv

    # -------------------------------------------------------------- control
    def condition_blocks(self):
        f = self.f; out = set(); wl = [self.H]
        while wl:
            b = wl.pop()
            if b in out or b not in self.body: continue
            if b != self.H and b in self.loops: continue
            if not all(pure_instr(self.ex, f, s) for s in f.blocks[b]): continue
            t = f.blocks[b][-1]
            if t.op == 'br': nx = [t.a[0]]
            elif t.op == 'cbr': nx = [t.a[1], t.a[2]]
            elif t.op == 'switch': nx = [t.a[2]] + [x[1] for x in t.a[3]]
            elif t.op == 'call': nx = [t.a[3]] if t.a[3] else []
            else: nx = []
            if self.H in nx: continue            # the last block of a body without effects is no condition
            out.add(b); wl += nx
        return out
    def run_cb(self, p, skipphi=False):
        """evaluate the conditions at the loop head: (paths going on, paths leaving)"""
        ex = self.ex; f = self.f
        p = Path(p.st.fork(), dict(p.regs), p.block, p.prev, EMPTY)
        front = []; exits = []; outs = []
        nphi = sum(1 for x in f.blocks[self.H] if x.op == 'phi')
        if self.H not in self.cb:
            if not skipphi:
                vs = [(s.dst, ex.val(p.st, p.regs, s.a[0], s.a[1][p.prev])) for s in f.blocks[self.H][:nphi]]
                for d, v in vs: p.regs[d] = v
            return [p], []
        wl = [(p, skipphi)]
        while wl:
            q, sk = wl.pop()
            try: nx = ex.cont(f, q, nphi, self.H, self.body, self.loops, outs) if sk else ex.block(f, q, self.H, self.body, self.loops, outs)
            except PathEnd: continue
            for r in nx:
                if len(nx) > 1 and quick(r.st.ctx(), FALSE): continue
                if r.block not in self.body: exits.append(r)
                elif r.block in self.cb and r.block != self.H: wl.append((r, False))
                else: front.append(r)
        if outs: raise LoopFail('condition leaves the function')
        return front, exits
    def advance(self, fronts):
        """the body from the end of the conditions to the loop head"""
        ex = self.ex; f = self.f
        back = []; exits = []; outs = []
        for q in fronts:
            q = Path(q.st.fork(), dict(q.regs), q.block, q.prev, EMPTY)
            if q.block == self.H:
                b, e, o = ex.region_loop(f, self.H, [q], True)
                back += b; exits += e; outs += o; continue
            inner = []; todo = [q]
            while todo:
                r = todo.pop()
                if r.block == self.H: back.append(r)
                elif r.block not in self.body: exits.append(r)
                elif r.block in self.loops and r.prev not in self.loops[r.block]:
                    try: e, o = ex.loop(f, r.block, r)
                    except PathEnd: continue
                    outs += o; todo += e
                else: inner.append(r)
            if inner:
                b, e, o = ex.region(f, inner, self.H)
                back += b; exits += e; outs += o
        keep = lambda ps: [q for q in ps if not quick(q.st.ctx(), FALSE)]
        return keep(back), keep(exits), [o for o in outs if not quick(o.st.ctx(), FALSE)]

    # -------------------------------------------------------------- what is known at the loop head
    def valueof(self, key, q, head=False):
        """value of a location on path q"""
        if key[0] == 'phi': return q.regs[key[1]]
        if key[0] == 'sum': return self.arr[key[1]].total(q)
        o = q.st.mem.get(key[1])
        if o is None: o = self.ex.obj(q.st, key[1])
        c = o.cells.get(key[2])
        return None if c is None else c[1]
    def initial(self, key): 
        if key[0] == 'phi': return self.reg0[key[1]]
        o = self.st0.mem.get(key[1]) or self.ex.obj(self.st0, key[1])
        c = o.cells.get(key[2])
        return None if c is None else c[1]
    def head(self):
        ex = self.ex
        st = self.st0.fork(); regs = dict(self.reg0)
        for key, x in self.hv.items():
            v = x.cls.value()
            if key[0] == 'phi': regs[key[1]] = v
            elif key[0] == 'cell':
                o = ex.wobj(st, key[1])
                for q in [q for q, (s, _) in o.cells.items() if q != key[2] and q < key[2] + x.size and q + s > key[2]]: del o.cells[q]
                o.cells[key[2]] = (x.size, v)
        for key in self.gone:
            if key[0] == 'phi': regs[key[1]] = UNDEF
            elif key[0] == 'cell': ex.wobj(st, key[1]).cells.pop(key[2], None)
        for a in self.arr.values(): a.install(st)
        for c in self.classes:
            if c.kind == 'D' and len(c.may) > 1:
                fl = [t for n, t in zip(('nan', 'pi', 'ni'), c.v[1:]) if n in c.may]
                for i in range(len(fl)):
                    for j in range(i): st.assume(Not(And(fl[i], fl[j])))
        if self.cands:
            for n, t in self.cands: st.assume(self.under(t))
        self.base = st.fork(); self.basepc = len(st.pc); self.idmark = ex.nextid[0]
        return Path(st, regs, self.H, None, EMPTY)
    def under(self, t):
        """a candidate with the flags known to be absent removed"""
        m = {}
        for c in self.classes:
            if c.kind == 'D':
                for n, s in zip(('nan', 'pi', 'ni'), c.v[1:]):
                    if n not in c.may: m[s] = FALSE
        return subst(t, m)
    def kindof(self, v):
        if isinstance(v, D): return 'D'
        if isinstance(v, T): return v.sort if v.sort in 'IB' else None
        return None
    def flag(self, v):
        if isnum(v): return val(v) in (0, 1)
        return v.op == 'ite' and self.flag(v.a[1]) and self.flag(v.a[2])

    # -------------------------------------------------------------- main
    def solve(self):
        ex = self.ex
        t0 = time.time()
        self.reg0 = dict(self.regs0)
        for s in self.phis: self.reg0[s.dst] = ex.val(self.st0, self.regs0, s.a[0], s.a[1][self.p.prev])
        p0 = Path(self.st0.fork(), dict(self.reg0), self.H, self.p.prev, EMPTY)
        front0, exits0 = self.run_cb(p0, True)
        if not front0: return exits0, []
        self.front0 = front0
        ex.discover += 1
        ex._carry.append({})
        try:
            for rnd in range(60):
                if ex.deadline and time.time() > ex.deadline: raise Unsupported('time budget')
                if rnd and self.cands is None:
                    self.cands = [(n, t) for n, t in self.candidates(None) if n not in self.dropped]
                    if TR: print('    candidates', len(self.cands), [n for n, t in self.cands], file=sys.stderr, flush=True)
                hp = self.head()
                fronts, _ = self.run_cb(hp, True)
                back, exits, outs = self.advance(fronts)
                if TR: print('  ' * ex.discover + 'round', rnd, self.ex.dem.get(self.f.name, '')[:40], self.H, 'fronts', len(fronts), 'back', len(back), 'exits', len(exits), 'hv', len(self.hv), 'cands', len(self.cands or ()), '%.1f' % (time.time() - t0), file=sys.stderr, flush=True)
                if not back: 
                    if rnd == 0: return self.once(front0, exits0)
                    break
                try:
                    heads = self.arrivals(back)[0]
                    ch = self.refine(hp, heads)
                except Restart: continue
                if not ch: break
            else: raise LoopFail('no inductive set of facts found')
        finally:
            ex.discover -= 1; carry = ex._carry.pop()
        # the last execution: everything is recorded
        hp = self.head()
        fronts, _ = self.run_cb(hp, True)
        ex._carry.append(carry)
        try: back, exits, outs = self.advance(fronts)
        finally: ex._carry.pop()
        heads, bexits = self.arrivals(back)
        try: ch = self.refine(hp, heads)
        except Restart: ch = True
        if ch: raise LoopFail('facts not inductive')
        if ex.opts.get('terminate') and not ex.discover: self.termination(hp, heads)
        if TR: print('  ' * ex.discover + 'solved', self.H, '%.1f' % (time.time() - t0), [n for n, t in self.cands or ()], file=sys.stderr, flush=True)
        return exits0 + bexits + exits, outs
    def once(self, front0, exits0):
        back, exits, outs = self.advance(front0)
        if back: raise LoopFail('unstable')
        return exits0 + exits, outs
    def arrivals(self, back):
        """paths arriving at the loop head with its conditions evaluated"""
        heads = []; exits = []
        for q in back:
            for a in self.arr.values(): a.lemma(q.st, a.count(q), a.total(q))
            fr, exs = self.run_cb(q)
            heads += [h for h in fr if not quick(h.st.ctx(), FALSE)]
            exits += [e for e in exs if not quick(e.st.ctx(), FALSE)]
        return heads, exits

    # -------------------------------------------------------------- elimination
    def refine(self, hp, heads):
        ch = False
        new = set()
        for q in heads:
            if q.st.locks != self.base.locks: raise LoopFail('lock changed inside the loop')
            if any(q.st.misc.get(k) is not v and q.st.misc.get(k) != v for k, v in self.base.misc.items()): raise LoopFail('bookkeeping changed inside the loop')
            pv = [q.regs[s.dst] for s in self.phis]
            scal, lays = self.diff(q.st, pv, hp.regs)
            for (oid, off) in lays:
                if self.note_array(oid): ch = True
            for key, (old, v, sz) in scal.items():
                if key in self.gone: continue
                if key in self.hv:
                    if sz is not None and self.hv[key].size != sz: raise LoopFail('size of a changed location')
                    continue
                if key[0] == 'phi' and (v is old or v == old): continue
                if v is old or (v is not UNDEF and v == old): continue
                if isinstance(v, (Ptr, Fn)) or isinstance(old, (Ptr, Fn)): raise LoopFail('pointer changed inside the loop')
                new.add((key, sz))
        if new:
            for key, sz in new: self.forget(key, sz)
            self.cands = None
            raise Restart()
        if ch: raise Restart()
        for a in self.arr.values():
            if a.refine(heads): raise Restart()
        # values of the forgotten locations on each arriving path
        vals = []
        for q in heads:
            m = {}
            for key, x in self.hv.items():
                v = self.valueof(key, q)
                if x.kind == 'b' and isinstance(v, T) and v.sort == 'I':
                    if not self.flag(v): x.kind = 'I'; x.cls = self.newcls('I'); self.cands = None; raise Restart()
                elif v is None or v is UNDEF or self.kindof(v) != x.kind:
                    self.gone.add(key); del self.hv[key]; self.cands = None
                    self.classes = [c for c in self.classes if any(y.cls is c for y in self.hv.values())]
                    raise Restart()
                m[key] = v
            vals.append((q, m))
        if self.cands is None: self.cands = []
        # candidates that some way around the loop does not preserve
        bad = set()
        for q, m in vals:
            sub_ = {}
            for key, x in self.hv.items(): sub_.update(x.cls.subst(m[key]))
            ctx = q.st.ctx()
            for n, t in self.cands:
                if n in bad: continue
                g = subst(t, sub_)
                if not self.holds(ctx, g):
                    if TR: print('    drop', n, file=sys.stderr, flush=True)
                    bad.add(n)
        if bad:
            self.dropped |= bad
            self.cands = [(n, t) for n, t in self.cands if n not in bad]
            ch = True
        # undefined values and infinities
        for q, m in vals:
            ctx = q.st.ctx()
            for key, x in self.hv.items():
                if x.kind != 'D': continue
                v = m[key]
                for n, t in (('nan', v.nan), ('pi', v.pi), ('ni', v.ni)):
                    if n in x.cls.may or t is FALSE: continue
                    if not (quick(ctx, Not(t)) or prove(ctx, Not(t), 1, 1000)):
                        x.cls.may.add(n); ch = True
        # equal locations stay equal
        for c in list(self.classes):
            ks = [k for k, x in self.hv.items() if x.cls is c]
            if len(ks) < 2: continue
            parts = [[ks[0]]]
            for k in ks[1:]:
                for g in parts:
                    if all(self.same(q.st, m[k], m[g[0]]) for q, m in vals): g.append(k); break
                else: parts.append([k])
            if len(parts) > 1:
                for g in parts[1:]:
                    n = self.newcls(c.kind)
                    n.may = set(c.may)
                    for k in g: self.hv[k].cls = n
                self.cands = None; ch = True
        if ch: raise Restart()
        return False
    def same(self, st, a, b):
        if a is b or a == b: return True
        if type(a) is not type(b): return False
        ctx = st.ctx()
        if isinstance(a, T): return a.sort == b.sort and bool(quick(ctx, eq(a, b)))
        if isinstance(a, D): return bool(quick(ctx, d_same(a, b)))
        return False
    def settle(self, v):
        """a starting value with the alternatives decided by the facts at the loop head taken"""
        if len(self.front0) != 1: return v
        ctx = self.front0[0].st.ctx(); memo = {}
        def go(t):
            if t.op in ('num', 'sym', 'bv', 'true', 'false'): return t
            r = memo.get(t)
            if r is None:
                if t.op == 'ite':
                    c = go(t.a[0])
                    r = go(t.a[1]) if c is TRUE or quick(ctx, c) else go(t.a[2]) if c is FALSE or quick(ctx, Not(c)) else ite(c, go(t.a[1]), go(t.a[2]))
                elif t.op in ('and', 'or', 'not', 'eq0', 'le0', 'lt0') or t.op == 'app' and t.sort == 'B':
                    r = TRUE if quick(ctx, t) else FALSE if quick(ctx, Not(t)) else t
                else: r = rebuild(t, go)
                memo[t] = r
            return r
        return map_terms(v, go)
    def holds(self, ctx, g):
        if g is TRUE: return True
        if g is FALSE: return bool(quick(ctx, FALSE))
        if quick(ctx, g): return True
        return prove(ctx, g, 1, 1500).status == 'proved'
    def newcls(self, kind):
        c = Cls(kind, len(self.classes)); self.classes.append(c); return c
    def forget(self, key, sz):
        v0 = self.initial(key)
        k = None if v0 is None or v0 is UNDEF else self.kindof(v0)
        if k: v0 = self.settle(v0)
        if isinstance(v0, (Packed, Agg)): raise LoopFail('packed value changed inside the loop')
        if k is None or (isinstance(v0, T) and v0.op == 'sym' and v0.a[0].startswith(('uninit', 'undef'))): self.gone.add(key); return
        if key[0] != 'phi':
            c = self.ex.obj(self.st0, key[1]).cells[key[2]]
            if c[0] != sz: raise LoopFail('size of a changed location')
        if k == 'I' and sz == 1 and self.flag(v0): k = 'b'
        x = HV(key, v0, sz, k)
        for y in self.hv.values():
            if y.kind == k and y.v0 == v0 and not y.cls.may: x.cls = y.cls; break
        else:
            x.cls = self.newcls(k)
        if k == 'D':
            for n, t in (('nan', v0.nan), ('pi', v0.pi), ('ni', v0.ni)):
                if t is not FALSE and not quick(self.st0.ctx(), Not(t)): x.cls.may.add(n)
        self.hv[key] = x
    def note_array(self, oid):
        if oid in self.arr: return False
        a = self.arr[oid] = ArrInv(self, oid)
        if a.W is not None:
            key = ('sum', oid); x = self.hv[key] = HV(key, D(a.S0), None, 'D'); x.cls = self.newcls('D')
            a.S = x.cls.v[0]; self.cands = None
        return True

    # -------------------------------------------------------------- candidates
    def candidates(self, vals):
        ex = self.ex; st0 = self.st0
        rep = []
        seen = set()
        for key, x in self.hv.items():
            if id(x.cls) in seen: continue
            seen.add(id(x.cls)); rep.append(x)
        members = {}
        for key, x in self.hv.items(): members.setdefault(id(x.cls), []).append('%s' % (key[1] if key[0] == 'phi' else '%s+%s' % key[1:3],))
        nm = lambda x: '='.join(members[id(x.cls)])      # a fact that fails for a class may hold for a part of it
        out = []
        ints = [x for x in rep if x.kind == 'I']; reals = [x for x in rep if x.kind == 'D']; bools = [x for x in rep if x.kind in 'Bb']
        for x in bools:
            out.append((nm(x), x.cls.v[0])); out.append(('not ' + nm(x), Not(x.cls.v[0])))
        for x in ints:
            h = x.cls.v[0]
            start = x.v0.op in ('num', 'sym', 'poly')
            for c in [I0, I1] + ([x.v0] if start and x.v0 not in (I0, I1) else []): out.append(('%s>=%r' % (nm(x), c), le(c, h)))
            if start: out.append(('%s<=v0' % nm(x), le(h, x.v0)))
        for n, t in self.linear(ints, nm): out.append((n, t))
        rv = {id(x): D(*x.cls.v) for x in reals}
        consts = [('0', D(R0)), ('1', D(R1)), ('eps', D(EPS))]
        for x in reals:
            d = rv[id(x)]
            for n, c in consts:
                out += [('%s<=%s' % (nm(x), n), d_le(d, c)), ('%s<%s' % (nm(x), n), d_lt(d, c)), ('%s>=%s' % (nm(x), n), d_le(c, d)), ('%s>%s' % (nm(x), n), d_lt(c, d))]
            if x.v0.bad() is FALSE and not isnum(x.v0.v): out += [('%s>=v0' % nm(x), d_le(x.v0, d)), ('%s<=v0' % nm(x), d_le(d, x.v0))]
        if len(reals) <= 12:
            for x in reals:
                for y in reals:
                    if x is not y: out += [('%s<%s' % (nm(x), nm(y)), d_lt(rv[id(x)], rv[id(y)])), ('%s<=%s' % (nm(x), nm(y)), d_le(rv[id(x)], rv[id(y)]))]
        for key, x in self.hv.items():
            if key[0] != 'sum': continue
            S = x.cls.v[0]
            for y in reals:
                if y is x or y.v0.bad() is not FALSE: continue
                d = rv[id(y)]
                out.append(('%s + sum' % nm(y), And(d.fin(), eq(add(d.v, S), add(y.v0.v, x.v0.v)))))
                out.append(('%s - sum' % nm(y), And(d.fin(), eq(sub(d.v, S), sub(y.v0.v, x.v0.v)))))
        # those that hold on entry
        m0 = {}
        for x in rep: m0.update(x.cls.subst(x.v0))
        keep = []
        for n, t in out:
            g = subst(t, m0)
            if all(g is TRUE or g is not FALSE and quick(q.st.ctx(), g, 300) for q in self.front0): keep.append((n, t))
        return keep
    def pin(self, q, t):
        """the number a term must equal on this path, if there is one"""
        if isnum(t): return t
        r = prove(q.st.ctx(), FALSE, 0, 1000)
        if r.status != 'cex' or r.model is None: return t
        v = solve.model_value(r.model, t)
        return I(v) if isinstance(v, int) and not isinstance(v, bool) and self.holds(q.st.ctx(), eq(t, I(v))) else t
    def linear(self, ints, nm):
        """linear relations of the counters that the first iterations show"""
        if len(ints) < 2: return []
        if self.samples is None:
            self.samples = []; cur = self.front0
            try:
                for it in range(2):
                    back, _, _ = self.advance(cur)
                    cur, _ = self.arrivals(back)
                    cur = cur[:6]
                    self.samples += cur
                    if not cur: break
            except Unsupported: pass
        samples = []
        for q in self.samples:
            row = []
            for x in ints:
                v = self.valueof(x.key, q)
                if not isinstance(v, T) or v.sort != 'I': return []
                row.append(self.pin(q, sub(v, x.v0)))
            samples.append(row)
        if not samples: return []
        def poly(t):
            if t.op == 'poly': return {m: Fraction(c) for m, c in t.a}
            if isnum(t): return {(): Fraction(val(t))} if val(t) else {}
            return {((t, 1),): Fraction(1)}
        rows = []
        for s in samples:
            ps = [poly(t) for t in s]
            for m in set(k for p in ps for k in p): rows.append([p.get(m, Fraction(0)) for p in ps])
        out = []
        def emit(idx, coef):
            from math import lcm
            L = 1
            for c in coef: L = lcm(L, c.denominator)
            t = add(*[scale(int(c * L), sub(ints[i].cls.v[0], ints[i].v0)) for i, c in zip(idx, coef)])
            out.append(('linear ' + ' '.join('%s*%s' % (c * L, nm(ints[i])) for i, c in zip(idx, coef)), eq(t, I0)))
        pairs = set()
        for i in range(len(ints)):
            for j in range(i):
                ns = nullspace([[r[i], r[j]] for r in rows], 2)
                if len(ns) == 1 and all(ns[0]): emit((i, j), ns[0]); pairs.add((i, j))
        for i in range(len(ints)):
            for j in range(i):
                for k in range(j):
                    if {(i, j), (i, k), (j, k)} & pairs: continue
                    ns = nullspace([[r[i], r[j], r[k]] for r in rows], 3)
                    if len(ns) == 1 and all(ns[0]): emit((i, j, k), ns[0])
        return out

    # -------------------------------------------------------------- termination
    def termination(self, hp, heads):
        """some whole number never negative while the loop goes on shrinks every time"""
        ex = self.ex
        syms = set(); subs = []
        for c in self.classes:
            if c.kind == 'I': syms.add(c.v[0])
        for q in heads:
            m = {}
            for key, x in self.hv.items():
                if x.kind == 'I': m.update(x.cls.subst(self.valueof(key, q)))
            subs.append((q, m))
        ok = not heads
        meas = []
        for q, m in subs:
            for t, br in q.st.pc[self.basepc:] + [(t, b) for t, b in self.base.pc]:
                for u in (t.a if t.op == 'and' else (t,)):
                    if u.op in ('le0', 'lt0') and u.a[0].sort == 'I' and u.a[0].fv & syms and u.a[0] not in meas: meas.append(u.a[0])
        why = 'no measure'
        for p in meas:
            if not isinstance(p, T): continue
            good = True
            for q, m in subs:
                ctx = q.st.ctx()
                if not self.holds(ctx, le(p, I0)) or not self.holds(ctx, le(add(p, I1), subst(p, m))): good = False; break
            if good: ok = True; why = 'measure %r' % neg(p); break
        name = self.ex.dem.get(self.f.name, self.f.name).split('(')[0]
        ex.obligations.append(dict(id='termination', goal='loop in %s terminates: %s' % (name, why), status='proved' if ok else 'unknown', model=None, ctx=hp.st.ctx(), backend='z3', where=ex.where(), time=0))

def nullspace(rows, n):
    rows = [list(r) for r in rows]; piv = []; r = 0
    for c in range(n):
        p = next((i for i in range(r, len(rows)) if rows[i][c] != 0), None)
        if p is None: continue
        rows[r], rows[p] = rows[p], rows[r]
        d = rows[r][c]; rows[r] = [x / d for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c] != 0:
                k = rows[i][c]; rows[i] = [x - k * y for x, y in zip(rows[i], rows[r])]
        piv.append(c); r += 1
    out = []
    for c in range(n):
        if c in piv: continue
        v = [Fraction(0)] * n; v[c] = Fraction(1)
        for i, pc in enumerate(piv): v[pc] = -rows[i][c]
        out.append(v)
    return out

class ArrInv:
    """what is known of the elements of an array used as a stack: some fields are free (the generators), others are
    functions of them, some facts hold of every element below the element count, and the sum of a weight over the elements"""
    def __init__(self, inv, oid):
        ex = self.ex = inv.ex; self.inv = inv; self.oid = oid
        o = ex.obj(inv.st0, oid)
        if o.dims != 1: raise LoopFail('array changed inside the loop')
        self.fields = {off: sz for off, (sz, _) in o.cells.items()}
        self.tag = '$' + sym('a', 'I').a[0]
        self.gen = {}; self.dep = {}; self.facts = []; self.n = None; self.W = None; self.S = None
        idx = self.written(o, 0)
        if idx is None: raise LoopFail('array written at an unknown place before the loop')
        # the element count: kept beside the pointer to the elements
        for i, c in inv.st0.mem.items():
            if c.dims == 0 and any(isinstance(v, Ptr) and v.o == oid for _, v in c.cells.values()):
                for off, (sz, v) in c.cells.items():
                    if isinstance(v, T) and v.sort == 'I' and isnum(v) and val(v) == len(idx): self.n = ('cell', i, off)
        if self.n is None or [val(i) if isnum(i) else None for i in idx] != [0]: return
        e = self.element(inv.st0, o, idx[0])
        for off, v in sorted(e.items()):
            if isinstance(v, D) and v.bad() is FALSE and v.v.op == 'sym' and v.v not in self.gen.values(): self.gen[off] = v.v
        self.sy = [self.gen[k] for k in sorted(self.gen)]
        for off, v in e.items():
            if off not in self.gen and isinstance(v, D): self.dep[off] = v
        ctx = inv.st0.ctx()
        for t in self.sy:
            for c in (R0, R1): self.facts += [le(t, c), lt(t, c), le(c, t), lt(c, t)]
        for t in self.sy:
            for u in self.sy:
                if t is not u: self.facts += [le(t, u), lt(t, u)]
        self.facts = [f for f in self.facts if quick(ctx, f)]
        w = [n for n, d in ex.dem.items() if d.startswith('weight(') and n in ex.mod.funcs]
        if w and len(self.sy) == 2:
            outs = [o for o in ex.call(inv.st0.fork(), Fn(w[0]), [D(t) for t in self.sy]) if o.kind == 'ret']
            if len(outs) == 1 and isinstance(outs[0].val, D) and outs[0].val.bad() is FALSE: self.W = self.S0 = outs[0].val.v
    def at(self, k, t, gens=None):
        """a term over the generators, for the element k"""
        m = {s: app(self.tag + '.%d' % off, k) for off, s in self.gen.items()} if gens is None else gens
        return subst_v(t, m) if isinstance(t, D) else subst(t, m)
    def free(self, off, k):
        n = '%s.%d' % (self.tag, off)
        nan, pi, ni = (app(n + x, k, sort='B') for x in ('n', 'p', 'm'))
        return D(app(n, k), nan, And(pi, Not(nan)), And(ni, Not(nan), Not(pi)))
    def value(self, off, k):
        if off in self.gen: return D(app('%s.%d' % (self.tag, off), k))
        if off in self.dep: return self.at(k, self.dep[off])
        return self.free(off, k)
    def count(self, q):
        return None if self.n is None else self.inv.valueof(self.n, q)
    def install(self, st):
        o = self.ex.wobj(st, self.oid); s = SLOT(0)
        for off, sz in self.fields.items(): o.cells[off] = (sz, [((s,), TRUE, self.value(off, s))])
        x = self.inv.hv.get(self.n)
        self.nh = x.cls.value() if x else None
        if x and self.facts:
            k = sym('$j', 'I', 0)
            for f in self.facts:
                lev, (b,) = close((self.at(k, f),), k)
                st.qf.append((I0, self.nh, lev, b))
            st._ctx = None
        if self.S is not None: self.lemma(st, self.nh, D(self.S))
    def lemma(self, st, n, S):
        """nothing adds up to nothing"""
        if n is not None and S is not None and self.S is not None: st.assume(Implies(eq(n, I0), eq(S.v, R0)))
    def written(self, o, skip):
        out = []
        for off, (sz, ls) in o.cells.items():
            if off not in self.fields: return None
            for syms, cond, v in ls[skip:]:
                w = solve_slot(cond, syms[0])
                if w is None: return None
                if w not in out: out.append(w)
        return out
    def element(self, st, o, i):
        return {off: self.ex.readlayers(st, o.cells[off][1], (i,), ('double',), len(o.cells[off][1]) - 1) for off in self.fields}
    def changes(self, q):
        """(first index changed, count after, {index: element}), indices relative to the count at the loop head; or None"""
        o = q.st.mem.get(self.oid) or self.ex.obj(q.st, self.oid)
        n = self.count(q)
        if n is None or self.nh is None: return None
        d = sub(n, self.nh)
        if not isnum(d): return None
        idx = self.written(o, 1)
        if idx is None: return None
        el = {}
        for i in idx:
            k = sub(i, self.nh)
            if not isnum(k): return None
            el[val(k)] = self.element(q.st, o, i)
        d = val(d); m = min([0, d] + list(el))
        if any(k not in el for k in range(min(list(el) + [d]), d)) or m < -4: return None
        return m, d, el
    def total(self, q):
        if self.S is None: return None
        c = self.changes(q)
        if c is None: return None
        m, d, el = c; s = self.S
        for k in range(m, 0): s = sub(s, self.at(add(self.nh, I(k)), self.W))
        for k in range(m, d):
            if k in el:
                g = {s_: el[k][off].v for off, s_ in self.gen.items()}
                s = add(s, self.at(None, self.W, g))
            else: s = add(s, self.at(add(self.nh, I(k)), self.W))
        return D(s)
    def forget(self, why):
        if TR: print('    array:', why, file=sys.stderr)
        if self.n is not None and self.inv.hv.get(('sum', self.oid)):
            del self.inv.hv[('sum', self.oid)]
            self.inv.classes = [c for c in self.inv.classes if any(y.cls is c for y in self.inv.hv.values())]
            self.inv.cands = None
        self.gen = {}; self.dep = {}; self.facts = []; self.S = self.W = None
        return True
    def refine(self, heads):
        if not self.gen and not self.dep: return False
        ch = False
        for q in heads:
            c = self.changes(q)
            if c is None:
                if self.inv.hv.get(self.n) is None: continue           # the count changes as well: next round
                return self.forget('changes not understood')
            m, d, el = c; ctx = q.st.ctx()
            for k, e in el.items():
                g = {}
                for off, s in self.gen.items():
                    v = e[off]
                    if not isinstance(v, D) or not (v.bad() is FALSE or quick(ctx, Not(v.bad()))): return self.forget('generator %d may be undefined' % off)
                    g[s] = v.v
                for f in list(self.facts):
                    if not self.inv.holds(ctx, self.at(None, f, g)):
                        if TR: print('    array fact lost', f, file=sys.stderr)
                        self.facts.remove(f); ch = True
                for off, t in list(self.dep.items()):
                    u = self.at(None, t, g)
                    if not (isinstance(e[off], D) and (e[off] == u or self.inv.holds(ctx, d_same(e[off], u)))):
                        if TR: print('    array field lost', off, repr(e[off])[:300], '\n      expected', repr(u)[:300], file=sys.stderr)
                        del self.dep[off]; ch = True
        return ch

def solve_slot(c, s):
    if c.op != 'eq0': return None
    p = c.a[0]
    if p is s: return I0
    if p.op != 'poly': return None
    co = 0; rest = []
    for m, x in p.a:
        if m == ((s, 1),): co = x
    if co not in (1, -1): return None
    w = scale(-co, sub(p, scale(co, s)))
    return None if s in w.fv else w
