"""Symbolic values, symbolic heap, path exploration and the obligation engine.

Integers and addresses are SMT Ints constrained to their C ranges; every operation that can leave its
range is either proved not to (signed: obligation, it is UB otherwise) or wrapped explicitly (unsigned).
The heap is a set of separately owned chunks (separation-logic style); arrays inside chunks are
symbolic arrays with quantified facts instantiated at every index that is read.
"""
import itertools, time
import z3

INT = z3.IntSort()

class PathEnd(Exception): pass
class Stuck(Exception):
    """the path cannot be continued after a failed obligation"""
class Unsupported(Exception): pass
class Annot(Exception):
    """an annotation does not attach to the code (renamed variable, restructured loop, ...)"""

def isc(x): return isinstance(x, (int, bool))
def T(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    return x
def cval(x):
    """python int if x is a constant"""
    if isinstance(x, bool): return x
    if isinstance(x, int): return x
    if z3.is_int_value(x): return x.as_long()
    if z3.is_true(x): return True
    if z3.is_false(x): return False
    return None
def simp(x):
    if isc(x): return x
    s = z3.simplify(x)
    c = cval(s)
    return s if c is None else c
def add(a, b):
    if isc(a) and isc(b): return a + b
    if isc(b) and b == 0: return a
    if isc(a) and a == 0: return b
    return a + b
def sub(a, b):
    if isc(a) and isc(b): return a - b
    if isc(b) and b == 0: return a
    return simp(a - b)
def mul(a, b):
    if isc(a) and isc(b): return a * b
    if isc(a) and a == 1: return b
    if isc(b) and b == 1: return a
    return a * b
def eq(a, b):
    if isc(a) and isc(b): return a == b
    if not isc(a) and not isc(b) and a.eq(b): return True
    return T(a) == T(b)
def ne(a, b): return Not(eq(a, b))
def le(a, b): return (a <= b) if isc(a) and isc(b) else T(a) <= T(b)
def lt(a, b): return (a < b) if isc(a) and isc(b) else T(a) < T(b)
def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)
def And(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)): x = And(*x)
        if x is True: continue
        if x is False: return False
        ys.append(x)
    if not ys: return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)
def Or(*xs):
    ys = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        ys.append(x)
    if not ys: return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)
def Not(x): return (not x) if isinstance(x, bool) else z3.Not(x)
def Implies(a, b):
    if a is True: return b
    if a is False or b is True: return True
    return z3.Implies(a, T(b))
def If(c, a, b):
    if c is True: return a
    if c is False: return b
    if isc(a) and isc(b) and a == b and type(a) == type(b): return a
    return z3.If(c, T(a), T(b))
def Iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool): return a == b
    return T(a) == T(b)

def lin(x):
    """linear normal form: ({key: (term, coef)}, const)"""
    if isc(x): return {}, int(x)
    atoms, const = {}, 0
    stack = [(x, 1)]
    while stack:
        t, k = stack.pop()
        if isc(t): const += k * t; continue
        if z3.is_int_value(t): const += k * t.as_long(); continue
        d = t.decl().kind() if z3.is_app(t) else None
        if d == z3.Z3_OP_ADD:
            for c in t.children(): stack.append((c, k)); continue
        elif d == z3.Z3_OP_SUB:
            ch = t.children(); stack.append((ch[0], k))
            for c in ch[1:]: stack.append((c, -k))
        elif d == z3.Z3_OP_UMINUS:
            stack.append((t.children()[0], -k))
        elif d == z3.Z3_OP_MUL:
            ch = t.children(); kk = k; rest = []
            for c in ch:
                if z3.is_int_value(c): kk *= c.as_long()
                else: rest.append(c)
            if not rest: const += kk
            elif len(rest) == 1: stack.append((rest[0], kk))
            else:
                key = tuple(sorted(r.get_id() for r in rest))
                o = atoms.get(key); m = rest[0]
                for r in rest[1:]: m = m * r
                atoms[key] = (m, (o[1] if o else 0) + kk)
        else:
            key = t.get_id(); o = atoms.get(key)
            atoms[key] = (t, (o[1] if o else 0) + k)
    return {k: v for k, v in atoms.items() if v[1] != 0}, const

def unlin(atoms, const):
    r = None
    for t, c in atoms.values():
        m = t if c == 1 else c * t
        r = m if r is None else r + m
    if r is None: return const
    return r if const == 0 else r + const

def divexact(x, k):
    """x / k if every coefficient divides, else None"""
    if k == 1: return x
    a, c = lin(x)
    if c % k: return None
    for t, q in a.values():
        if q % k: return None
    return unlin({i: (t, q // k) for i, (t, q) in a.items()}, c // k)

_cnt = itertools.count()

# ------------------------------------------------------------------------------------ arrays
class SArr:
    sz, signed = 8, False
    def store(self, j, v): return Store(self, j, v)
    def copyin(self, dst, src, s0, n): return Copy(self, dst, src, s0, n)

class Base(SArr):
    def __init__(self, ctx, name, sz=8, signed=False, rng=True):
        self.n = ctx.freshname(name)
        self.A = z3.Array(self.n, INT, INT)
        self.sz, self.signed, self.rng = sz, signed, rng
    def get(self, ctx, i):
        ctx.note_read(self, i)
        return z3.Select(self.A, T(i))

class FnBase(Base):
    """array-valued function of a value: the same value gives the same array"""
    def __init__(self, ctx, name, *xs, sz=1, signed=True):
        f = z3.Function(name, *([INT] * len(xs) + [z3.ArraySort(INT, INT)]))
        self.A = f(*[T(x) for x in xs]); ctx.keep.append(self.A)
        self.n = "%s(%d)" % (name, self.A.get_id()); self.sz, self.signed, self.rng = sz, signed, True
        self.fname, self.xs = name, xs
    def length(self, ctx, lo, hi):
        r = z3.Function(self.fname + "_len", *([INT] * (len(self.xs) + 1)))(*[T(x) for x in self.xs])
        ctx.keep.append(r); ctx.vr[r.get_id()] = (lo, hi); ctx.assume(And(le(lo, r), le(r, hi)))
        return r

class BBase(SArr):
    """boolean array (a set)"""
    def __init__(self, ctx, name):
        self.n = ctx.freshname(name)
        self.A = z3.Array(self.n, INT, z3.BoolSort()); self.rng = False
    def get(self, ctx, i):
        ctx.note_read(self, i)
        return z3.Select(self.A, T(i))

class Store(SArr):
    def __init__(self, p, j, v):
        self.p, self.j, self.v = p, j, v
        self.sz, self.signed = p.sz, p.signed
    def get(self, ctx, i):
        e = ctx.aeq(i, self.j)
        if e is True: return self.v
        if e is False: return self.p.get(ctx, i)
        return If(e, self.v, self.p.get(ctx, i))

class Copy(SArr):
    def __init__(self, p, dst, src, s0, n):
        self.p, self.dst, self.src, self.s0, self.n = p, dst, src, s0, n
        self.sz, self.signed = p.sz, p.signed
    def get(self, ctx, i):
        c = simp(And(le(self.dst, i), lt(i, add(self.dst, self.n))))
        if c is False: return self.p.get(ctx, i)
        v = self.src.get(ctx, add(sub(i, self.dst), self.s0))
        if c is True: return v
        return If(c, v, self.p.get(ctx, i))

class Const(SArr):
    def __init__(self, v, sz=1, signed=False): self.v, self.sz, self.signed = v, sz, signed
    def get(self, ctx, i): return self.v

class Lit(SArr):
    def __init__(self, bs): self.bs, self.sz, self.signed = bs, 1, True
    def get(self, ctx, i):
        c = cval(simp(i))
        if c is not None: return self.bs[c] if 0 <= c < len(self.bs) else 0
        r = 0
        for k in range(len(self.bs) - 1, -1, -1): r = If(eq(i, k), self.bs[k], r)
        return r

class Fun(SArr):
    def __init__(self, f, sz=8, signed=False): self.f, self.sz, self.signed = f, sz, signed
    def get(self, ctx, i): return self.f(i)

def irange(sz, signed):
    return (-(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1) if signed else (0, (1 << (8 * sz)) - 1)

# ------------------------------------------------------------------------------------ heap
class Seg:
    def __init__(self, off, stride, count, fields=None):
        self.off, self.stride, self.count = off, stride, count
        self.fields = fields or {}
    def clone(self):
        s = Seg(self.off, self.stride, self.count, dict(self.fields)); s.zero = getattr(self, "zero", False); return s

class Chunk:
    def __init__(self, base, size, kind="heap", free=False, name="", init=False):
        self.base, self.size, self.kind, self.free, self.name = base, size, kind, free, name
        self.cells, self.bfs, self.zeros, self.segs = {}, {}, [], []
        self.ro = False; self.init = init; self.lazy = True
        self.nuls = []; self.holes = []
        self.lb = lin(base)
    def __repr__(self): return "<%s %s size %s%s>" % (self.kind, self.base, self.size, " RO" if self.ro else "")

class MapChunk:
    """record fields of an unbounded family of records, as maps from record address"""
    def __init__(self, name, rec, dom, fields):
        self.name, self.rec, self.dom, self.fields = name, rec, dom, fields
        self.ro = False; self.kind = "map"

class Pred:
    def __init__(self, name, key, args):
        self.name, self.key, self.args = name, key, args
        self.ro = False; self.kind = "pred"
    def __repr__(self): return "<pred %s(%s, %s)>" % (self.name, self.key, self.args)

class StructVal:
    def __init__(self, size, cells, bfs=None, zeros=None):
        self.size, self.cells, self.bfs, self.zeros = size, cells, bfs or {}, zeros or []

# ------------------------------------------------------------------------------------ engine
class Engine:
    """runs all paths of one proof; collects obligations"""
    def __init__(self, qtimeout=8000, budget=300):
        self.obl = {}            # label -> [n proved]
        self.proved = 0; self.failed = []; self.solver_time = 0.0
        self.paths = 0; self.unknown = 0; self.qtimeout = qtimeout
        self.deadline = time.time() + budget
        self.covered = 0
        self.backends = {}

    def explore(self, run):
        stack = [[]]
        while stack:
            prefix = stack.pop()
            ctx = Ctx(self, prefix)
            self.paths += 1
            if self.paths > 6000 or time.time() > self.deadline:
                self.failed.append(dict(label="exploration budget", detail="too many paths or time", kind="budget"))
                break
            try:
                run(ctx)
                self.covered += 1
            except PathEnd:
                pass
            except Stuck:
                pass
            stack.extend(ctx.pending)

QUICK = 3000        # ms for questions whose unknown answer is safe: is this path possible

class Ctx:
    def __init__(self, eng, prefix):
        self.eng, self.prefix = eng, prefix
        self.trace = []; self.pending = []; self.pos = 0
        self.solver = z3.Solver(); self.solver.set("timeout", eng.qtimeout)
        self.heap = []; self.names = {}; self.logro = set()
        self.logs = {}
        self.facts = {}; self.reads = {}; self.readset = set(); self._inst_depth = 0
        self.ghosts = {}; self.ghost_ro = set()
        self.dec = {}
        self.vr = {}            # term id -> (lo, hi)
        self.ivc = {}
        self.keep = []          # keep terms alive so ids stay unique
        self.bases = []
        self.where = ""
        self.events = []
        self.notes = []
        self.diffs = []         # positions of differences found by string comparisons

    # -------------------------------------------------- determinism / replay
    @property
    def replaying(self): return self.pos < len(self.prefix)

    def _rec(self, val):
        self.trace.append(val); self.pos += 1
        return val

    def recorded(self, f):
        if self.replaying:
            v = self.prefix[self.pos]
            return self._rec(v)
        return self._rec(f())

    def freshname(self, name):
        n = self.names.get(name, 0); self.names[name] = n + 1
        return "%s!%d" % (name, n) if n else name

    def fresh(self, name="v", lo=None, hi=None):
        v = z3.Int(self.freshname(name))
        if lo is not None:
            self.solver.add(v >= lo); self.solver.add(v <= hi); self.vr[v.get_id()] = (lo, hi)
        self.keep.append(v)
        return v

    def freshty(self, name, sz, signed):
        lo, hi = irange(sz, signed)
        return self.fresh(name, lo, hi)

    # -------------------------------------------------- solver
    def assume(self, c):
        if isinstance(c, (list, tuple)): c = And(*c)
        if c is True: return
        if c is False:
            self.solver.add(z3.BoolVal(False)); return
        self.solver.add(c)

    def _check(self, extra, quick=False):
        t0 = time.time()
        self.solver.push()
        try:
            for e in extra: self.solver.add(T(e))
            if quick: self.solver.set("timeout", min(QUICK, self.eng.qtimeout))
            r = self.solver.check()
            if quick: self.solver.set("timeout", self.eng.qtimeout)
            m = None
            if r == z3.sat:
                m = self.solver.model()
            if r == z3.unknown and not quick:
                # second attempt, from scratch
                s2 = z3.SolverFor("ALL") if False else z3.Solver()
                s2.set("timeout", self.eng.qtimeout * 2)
                s2.set("random_seed", 7)
                s2.add(self.solver.assertions())
                r = s2.check()
                if r == z3.sat: m = s2.model()
        finally:
            self.solver.pop()
        self.eng.solver_time += time.time() - t0
        return r, m

    def feasible(self, c):
        c = simp(c)
        if isinstance(c, bool): 
            if c is False: return False
        return self.recorded(lambda: self._check([c], True)[0] != z3.unsat)

    def valid(self, c):
        """is c implied by the path condition (no obligation)"""
        c = simp(c)
        if isinstance(c, bool): return c if c else self.recorded(lambda: self._check([])[0] == z3.unsat)
        return self.recorded(lambda: self._check([Not(c)])[0] == z3.unsat)

    def choose(self, conds):
        """fork over a list of conditions; returns the index taken, with its condition assumed"""
        conds = [simp(c) for c in conds]
        for i, c in enumerate(conds):
            if c is True and all(d is False for j, d in enumerate(conds) if j != i): return i
        if self.replaying:
            k = self.prefix[self.pos]; self._rec(k)
            self.assume(conds[k]); return k
        feas = []
        for i, c in enumerate(conds):
            if c is False: continue
            if c is True or self._check([c], True)[0] != z3.unsat: feas.append(i)
        if not feas: raise PathEnd()
        for i in feas[1:]: self.pending.append(list(self.trace) + [i])
        self._rec(feas[0]); self.assume(conds[feas[0]])
        return feas[0]

    def branch(self, c):
        c = simp(c)
        if isinstance(c, bool): return c
        return self.choose([c, Not(c)]) == 0

    def prove(self, c, label, fatal=False, kind="post"):
        """proof obligation"""
        if isinstance(c, (list, tuple)): c = And(*c)
        c = simp(c) if not isinstance(c, bool) else c
        label = (self.where + ": " if self.where else "") + label
        def go():
            if c is True: return True, None
            r, m = self._check([Not(c)])
            if r == z3.unsat: return True, None
            self.eng.unknown += (r == z3.unknown)
            det = "solver answered %s" % r
            if m is not None:
                try:
                    ds = sorted(((d.name(), str(m[d])) for d in m.decls() if d.arity() == 0 and len(str(m[d])) < 40))
                    det += "; model: " + ", ".join("%s=%s" % x for x in ds[:60])
                except Exception: pass
            return False, det
        if self.replaying:
            ok = self._rec(self.prefix[self.pos])
        else:
            ok, det = go()
            self._rec(ok)
            if ok:
                self.eng.proved += 1
                self.eng.obl[label] = self.eng.obl.get(label, 0) + 1
            else:
                self.eng.failed.append(dict(label=label, detail=det, kind=kind, cond=str(c)[:600]))
        if not ok and fatal: raise Stuck()
        self.assume(c)
        if not ok:
            # a contradiction after assuming ends the path
            if isinstance(c, bool) and not c: raise Stuck()
        return ok

    def fail(self, label, detail="", kind="post"):
        label = (self.where + ": " if self.where else "") + label
        if not self.replaying:
            self._rec(False)
            if self._check([])[0] != z3.unsat:
                self.eng.failed.append(dict(label=label, detail=detail, kind=kind))
        raise Stuck()

    # -------------------------------------------------- intervals
    def iv(self, x):
        """cheap interval of a term"""
        if isc(x): return (int(x), int(x))
        k = x.get_id()
        r = self.ivc.get(k)
        if r is not None: return r
        r = self._iv(x)
        self.ivc[k] = r; self.keep.append(x)
        return r

    def _iv(self, x):
        N = (None, None)
        if z3.is_int_value(x): v = x.as_long(); return (v, v)
        if x.get_id() in self.vr: return self.vr[x.get_id()]
        if not z3.is_app(x): return N
        k = x.decl().kind(); ch = x.children()
        if k == z3.Z3_OP_ADD:
            lo = hi = 0
            for c in ch:
                a, b = self.iv(c)
                lo = None if lo is None or a is None else lo + a
                hi = None if hi is None or b is None else hi + b
            return (lo, hi)
        if k == z3.Z3_OP_MUL and len(ch) == 2 and z3.is_int_value(ch[0]):
            q = ch[0].as_long(); a, b = self.iv(ch[1])
            a2 = None if a is None else a * q; b2 = None if b is None else b * q
            return (a2, b2) if q >= 0 else (b2, a2)
        if k == z3.Z3_OP_SUB and len(ch) == 2:
            a, b = self.iv(ch[0]); c, d = self.iv(ch[1])
            return (None if a is None or d is None else a - d, None if b is None or c is None else b - c)
        if k == z3.Z3_OP_ITE:
            a, b = self.iv(ch[1]); c, d = self.iv(ch[2])
            return (None if a is None or c is None else min(a, c), None if b is None or d is None else max(b, d))
        if k == z3.Z3_OP_MOD and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
            return (0, ch[1].as_long() - 1)
        if k in (z3.Z3_OP_IDIV,) and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
            a, b = self.iv(ch[0]); q = ch[1].as_long()
            return (None if a is None else a // q, None if b is None else b // q)
        return N

    def inrange(self, x, lo, hi):
        a, b = self.iv(x)
        if a is not None and b is not None and lo <= a and b <= hi: return True
        return self.valid(And(le(lo, x), le(x, hi)))

    def aeq(self, i, j):
        """equality of indices, decided cheaply when possible"""
        if isc(i) and isc(j): return i == j
        d = simp(T(i) - T(j))
        if isc(d): return d == 0
        return T(i) == T(j)

    # -------------------------------------------------- quantified facts
    def note_read(self, base, i):
        t = simp(i); ti = T(t); self.keep.append(ti)
        key = (base.n, ti.get_id())
        if key in self.readset: return
        self.readset.add(key)
        self.reads.setdefault(base.n, []).append(t)
        if getattr(base, "rng", False):
            lo, hi = irange(base.sz, base.signed)
            s = z3.Select(base.A, ti); self.keep.append(s)
            self.solver.add(s >= lo, s <= hi); self.vr[s.get_id()] = (lo, hi)
        for f in list(self.facts.get(base.n, ())): self._inst(f, t)

    def _inst(self, f, t):
        if self._inst_depth > 6: return
        self._inst_depth += 1
        try:
            c = f(t)
            self.assume(c)
        finally:
            self._inst_depth -= 1

    def addfact(self, bases, f):
        """f(k) holds for every k; instantiated at each index read from one of the arrays in bases"""
        done = set()
        def g(t):
            tt = T(simp(t)); self.keep.append(tt)
            if tt.get_id() in done: return True
            done.add(tt.get_id())
            return f(t)
        for b in bases:
            self.facts.setdefault(b.n, []).append(g)
        for b in bases:
            for t in list(self.reads.get(b.n, ())): self._inst(g, t)

    @staticmethod
    def arr_bases(a):
        out = []
        def go(x):
            if isinstance(x, (Base, BBase)): out.append(x)
            elif isinstance(x, Store): go(x.p)
            elif isinstance(x, Copy): go(x.p); go(x.src)
        go(a)
        return out

    # -------------------------------------------------- chunks
    def newbase(self, name):
        b = self.fresh(name, 4096, (1 << 47))
        for o in self.bases: self.solver.add(b != o)
        self.bases.append(b)
        return b

    def addchunk(self, c):
        self.heap.append(c)
        if not isc(c.base):
            self.assume(And(ge(c.base, 4096), le(c.base, 1 << 47)))
            if c.size is not None:
                self.assume(And(ge(c.size, 0), le(c.size, 1 << 47)))
                # distinct chunks do not overlap (kept light: bases differ, and each base lies outside known-size peers)
                for o in self.heap:
                    if o is c or not isinstance(o, Chunk) or isc(o.base): continue
                    if o.size is None: continue
                    if getattr(c, "shared", False) and getattr(o, "shared", False): continue     # read-only memory may overlap
                    self.assume(Or(ge(c.base, add(o.base, o.size)), ge(o.base, add(c.base, c.size))))
                    self.assume(ne(c.base, o.base))
        return c

    def malloc(self, size, name="blk"):
        b = self.fresh(name, 4096, 1 << 47)
        # storage given by the allocator is aligned to 16 bytes
        c = Chunk(b, size, "heap", True, name)
        self.addchunk(c)
        return c

    def find(self, addr):
        """chunk containing addr, with the offset; None if none can be determined"""
        aa, ac = lin(addr)
        cands = []
        for c in self.heap:
            if not isinstance(c, Chunk): continue
            ba, bc = c.lb
            d = dict(aa); ok = True
            for k, (t, q) in ba.items():
                if k in d:
                    n = d[k][1] - q
                    if n == 0: del d[k]
                    else: ok = False; break
                else: ok = False; break
            if ok:
                cands.append((len(d), c, unlin(d, ac - bc) if d else ac - bc))
        if cands:
            cands.sort(key=lambda x: x[0])
            if len(cands) > 1 and cands[0][0] == cands[1][0]:
                for n, c, d in cands:
                    if c.size is None or self.valid(And(ge(d, 0), lt(d, c.size))): return c, d
            return cands[0][1], cands[0][2]
        return None

    def find_sem(self, addr):
        """semantic search: does the path condition fix addr inside a chunk"""
        cs = [c for c in self.heap if isinstance(c, Chunk)]
        def go():
            r, m = self._check([])
            if m is None: return None
            av = m.eval(T(addr), model_completion=True).as_long()
            for i, c in enumerate(cs):
                bv = m.eval(T(c.base), model_completion=True).as_long()
                sv = 0 if c.size is None else m.eval(T(c.size), model_completion=True).as_long()
                d = av - bv
                if 0 <= d < max(sv, 1):
                    if self._check([Not(eq(addr, add(c.base, d)))])[0] == z3.unsat: return (i, d)
            return None
        r = self.recorded(go)
        if r is None: return None
        return cs[r[0]], r[1]

    def same(self, a, b):
        """a == b under the path condition?"""
        e = simp(eq(a, b)) if not (isc(a) and isc(b)) else a == b
        if e is True: return True
        if e is False: return False
        return self.valid(e)
