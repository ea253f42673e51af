"""The contract language: one piece of Python describes a state; it is run in 'produce' mode to build an
arbitrary state satisfying it (assumed) and in 'consume' mode to prove that the current state satisfies it
and to give the described memory away."""
import z3
from .core import *
from .exec import Exec, UNINIT, TrapEx, VaList, Pack

U64 = ("int", 8, False); I64 = ("int", 8, True); U32 = ("int", 4, False); I32 = ("int", 4, True)
U16 = ("int", 2, False); CH = ("int", 1, True); U8 = ("int", 1, False); P = ("ptr", ("void",)); B8 = ("bool",)
F64 = ("flt", 8)

class G:
    """ghost values handed from precondition to postcondition"""
    def __init__(self, **kw): self.__dict__.update(kw)

class Log:
    def __init__(self, n=0, fields=None): self.n, self.fields = n, fields or {}
    def snap(self): return Log(self.n, dict(self.fields))
    def get(self, ctx, f, k):
        if f not in self.fields: self.fields[f] = Base(ctx, "log_" + f, 8, False, False)
        return self.fields[f].get(ctx, k)

def log_append(ctx, name, **vals):
    if name in ctx.logro: ctx.fail("event '%s' in a loop whose invariant does not mention it" % name, kind="frame")
    l = ctx.logs.setdefault(name, Log())
    for f, v in vals.items():
        a = l.fields.get(f)
        if a is None: a = Base(ctx, "log_%s_%s" % (name, f), 8, False, False)
        l.fields[f] = a.store(l.n, v)
    l.n = simp(add(l.n, 1))

class CV:
    """view of a chunk"""
    def __init__(self, a, ch): self.a, self.ch = a, ch; self.ex = a.ex
    @property
    def base(self): return self.ch.base
    def get(self, off, ty=U64):
        for ho, hs, mp in self.ch.holes:
            if isc(off) and ho <= off < ho + hs:
                m = self.ex.getmap(mp)
                f = self.ex.mapfield(m, off - ho, None)
                return m.fields[f[0]].get(self.a.ctx, simp(add(self.ch.base, ho)))
        if isc(off) and off not in self.ch.cells:
            for s in self.ch.segs:
                if isc(s.off) and isc(s.count) and s.off <= off < s.off + s.count * s.stride and (off - s.off) % s.stride in s.fields:
                    q, fo = divmod(off - s.off, s.stride)
                    z, b = s.fields[fo]
                    if z == self.a.tu.sizeof(ty): return self.ex.conv(b.get(self.a.ctx, q), b.signed, ty)
        return self.ex.cellread(self.ch, off, self.a.tu.sizeof(ty), ty)
    def set(self, off, ty, val, label=""):
        if self.a.produce:
            self.ch.cells[off] = (self.a.tu.sizeof(ty), self.ex.sgn(ty), val)
        else:
            self.a.fact(eq(self.get(off, ty), val), label or "%s+%d has the specified value" % (self.ch.name, off))
    def seg(self, off, stride, count, ty=None, fo=0, name=None):
        """array of count elements at off (field at fo of each element)"""
        ty = ty or (CH if stride == 1 else U64)
        sz, sg = self.a.tu.sizeof(ty), self.ex.sgn(ty)
        ctx = self.a.ctx
        for s in self.ch.segs:
            if s.stride == stride and (s.off is off or ctx.same(s.off, off)):
                if not self.a.produce and s.count is not count: self.a.fact(le(count, s.count), "%s has room for the array" % self.ch.name)
                return self.ex.segarr(self.ch, s, fo, sz, sg)
        if self.ch.segs:
            for s in self.ch.segs:
                q = divexact(simp(sub(off, s.off)), s.stride)
                if s.stride == stride and q is not None and fo in s.fields:
                    a = s.fields[fo][1]
                    r = Fun(lambda k: a.get(ctx, simp(add(k, q))), sz, sg); r.under = a
                    return r
        if not self.a.produce:
            self.a.fact(le(add(off, mul(count, stride)), self.ch.size), "%s has room for the array" % self.ch.name)
            if self.ch.cells and isc(off):
                cn = cval(simp(count)) if self.ch.segs is not None else None
                cs = [o for o in self.ch.cells if o >= off and (cn is None or o < off + cn * stride)]
                if cs: self.ex._cells_to_seg(self.ch, off, sz, stride, off, cn); return self.seg(off, stride, count, ty, fo)
        s = Seg(off, stride, count)
        self.ch.segs.append(s)
        b = Base(ctx, name or self.ch.name or "arr", sz, sg)
        s.fields[fo] = (sz, b)
        return b
    def setseg(self, off, stride, count, arr, ty=None, fo=0, label="", valid=None):
        """the array's first 'valid' elements (default: all count) are those of arr"""
        ty = ty or (CH if stride == 1 else U64)
        sz, sg = self.a.tu.sizeof(ty), self.ex.sgn(ty)
        if self.a.produce:
            if valid is not None and valid is not count:
                arr = Base(self.a.ctx, self.ch.name or "arr", sz, sg).copyin(0, arr, 0, valid)
            for s in self.ch.segs:
                if s.stride == stride and s.off is off: s.fields[fo] = (sz, arr); return
            s = Seg(off, stride, count); s.fields[fo] = (sz, arr); self.ch.segs.append(s)
        else:
            cur = self.seg(off, stride, count, ty, fo)
            self.a.arreq(cur, arr, 0, count if valid is None else valid, label or "%s holds the specified sequence" % self.ch.name)
    def nul(self, w):
        """position w holds a terminator"""
        if self.a.produce: self.ch.nuls.append(w)

class A:
    def __init__(self, ex, produce, at="" ):
        self.ex, self.ctx, self.tu, self.produce = ex, ex.ctx, ex.tu, produce
        self.logs_touched = set(); self.maps_touched = set(); self.loop = False
        self.taken = []
        self.verify = False

    # ---- plain facts
    def fact(self, c, label="condition"):
        if self.produce: self.ctx.assume(c)
        else: self.ctx.prove(c, label)
    def branch(self, c): return self.ctx.branch(c)
    def fresh(self, name, ty=U64):
        return self.ex.freshval(ty, name)
    def int(self, name): return self.ctx.fresh(name)
    def array(self, name, ty=U64, rng=True): return Base(self.ctx, name, self.tu.sizeof(ty), self.ex.sgn(ty), rng)
    def forall(self, arrs, f, label="for every index"):
        """f(k) for every k; arrs: the arrays whose reads trigger it when assumed"""
        if self.produce:
            bs = []
            for x in arrs:
                x = getattr(x, "under", x)
                bs += self.ctx.arr_bases(x)
            self.ctx.addfact(bs, f)
        else:
            k = self.ctx.fresh("k")
            self.ctx.prove(f(k), label)
    def arreq(self, a, b, lo, hi, label):
        """a[k] == b[k] for lo <= k < hi"""
        if a is b: return
        k = self.ctx.fresh("k")
        ctx = self.ctx
        dom = And(le(lo, k), lt(k, hi))
        if self.produce: raise Exception("arreq is for proving")
        ctx.solver.push()
        try:
            pass
        finally:
            ctx.solver.pop()
        self.ctx.prove(Implies(dom, eq(a.get(ctx, k), b.get(ctx, k))), label)

    # ---- memory
    def chunk(self, base, size, name="", kind="heap", ro=False, free=None, label=None):
        ctx = self.ctx
        if self.produce:
            c = Chunk(base, size, kind, (kind == "heap") if free is None else free, name, init=True)
            c.ro = ro; c.shared = ro
            ctx.addchunk(c)
            return CV(self, c)
        r = ctx.find(simp(base))
        if r is None or cval(simp(r[1])) != 0:
            r = ctx.find_sem(base)
        if r is None:
            for h in self.ex.auto:
                if h(self.ex, simp(base), None): r = ctx.find(simp(base)); break
        if r is None or cval(simp(r[1])) != 0:
            ctx.fail(label or "owns %s" % (name or base), kind="own")
        c = r[0]
        if size is not None and c.size is not size:
            ctx.prove(eq(c.size, size), "%s has the required size" % (name or c.name))
        if not ro:
            if c.ro: ctx.fail("%s is outside the frame here" % (name or c.name), kind="frame")
            ctx.heap.remove(c)
            self.taken.append(c)
        return CV(self, c)

    def absent(self, cv): pass

    def rec(self, base, recname, size=None, name="", hole=None, anysize=False, **kw):
        r = self.tu.rec(recname)
        cv = self.chunk(base, None if anysize else r.size if size is None else size, name or recname.strip("_"), **kw)
        if hole and self.produce: cv.ch.holes = [(self.tu.off(recname, hole), self.tu.rec("cee_sect").size, "SECT")]
        cv.r = recname
        def f(path):
            o, ty, bit = field(self.tu, recname, path)
            if bit is not None: return self.ex.cellread(cv.ch, o, self.tu.sizeof(ty), ty, bit)
            return cv.get(o, ty)
        def setf(path, val, label=""):
            o, ty, bit = field(self.tu, recname, path)
            if bit is not None:
                if self.produce: cv.ch.bfs[(o, bit[0], bit[1])] = val
                else: self.fact(eq(self.ex.cellread(cv.ch, o, self.tu.sizeof(ty), ty, bit), val), label or "%s is as specified" % path)
                return
            cv.set(o, ty, val, label or "%s.%s is as specified" % (name or recname.strip("_"), path))
        cv.f, cv.setf = f, setf
        return cv

    # ---- shared record families (headers of all other live blocks)
    def map(self, name, recname):
        """all live records of this type other than those owned as blocks"""
        self.maps_touched.add(name)
        if self.produce and not self.loop:
            for c in self.ctx.heap:
                if isinstance(c, MapChunk) and c.name == name: return Snap(c)
            rec = self.tu.rec(recname)
            dom = BBase(self.ctx, "live")
            fields = {}
            for f in rec.fields:
                fields[f[0]] = Base(self.ctx, f[0], self.tu.sizeof(f[2]), self.ex.sgn(f[2]), True)
                if f[3] is not None: fields[f[0]].bits = f[3][1]
            m = MapChunk(name, rec, lambda ex, r, dom=None: m.domarr.get(ex.ctx, r), fields)
            m.domarr = dom
            self.ctx.heap.append(m)
            self.ctx.addfact([dom], lambda t: Implies(dom.get(self.ctx, t), And(ge(t, 4096), le(t, 1 << 47))))
            return Snap(m)
        m = self.ex.getmap(name)
        return Snap(m)

    def map_is(self, name, fields, dom=None, label=""):
        """the family's current content: {field: array}"""
        self.maps_touched.add(name)
        m = self.ex.getmap(name)
        ctx = self.ctx
        if self.produce:
            ch = [f for f in fields if m.fields[f] is not fields[f]]
            if (ch or (dom is not None and dom is not m.domarr)) and m.ro:
                ctx.fail("%s headers are outside the frame here" % name, kind="frame")
            for f in ch: m.fields[f] = fields[f]
            if dom is not None: m.domarr = dom
            return
        x = None
        for f, arr in fields.items():
            if m.fields[f] is arr: continue
            if x is None: x = ctx.fresh("blk")
            d0 = (dom or m.domarr).get(ctx, x)
            ctx.prove(Implies(d0, eq(m.fields[f].get(ctx, x), arr.get(ctx, x))), label or "header field %s of every block is as specified" % f)
        if dom is not None and m.domarr is not dom:
            if x is None: x = ctx.fresh("blk")
            ctx.prove(Iff(m.domarr.get(ctx, x), dom.get(ctx, x)), label or "the set of live blocks is as specified")

    # ---- ghost event logs
    def log(self, name):
        self.logs_touched.add(name)
        return self.ctx.logs.setdefault(name, Log()).snap()
    def log_is(self, name, base, count, fields, label=""):
        """events since 'base' are: count entries with fields f(k)"""
        ctx = self.ctx
        self.logs_touched.add(name)
        if self.produce:
            if name in ctx.logro: ctx.fail("events '%s' in a loop whose invariant does not mention them" % name, kind="frame")
            l = Log(simp(add(base.n, count)), dict(base.fields))
            for f, fn in fields.items():
                b = base.fields.get(f)
                if b is None: b = Base(ctx, "log_%s_%s" % (name, f), 8, False, False)
                if cval(count) == 0: l.fields[f] = b
                else: l.fields[f] = b.copyin(base.n, Fun(fn), 0, count)
            ctx.logs[name] = l
            return
        l = ctx.logs.setdefault(name, Log())
        ctx.prove(eq(l.n, add(base.n, count)), label or "number of '%s' events" % name)
        if l.n is base.n and not l.fields: return
        if cval(simp(count)) == 0: return
        k = ctx.fresh("k")
        for f, fn in fields.items():
            ctx.prove(Implies(And(le(0, k), lt(k, count)), eq(l.get(ctx, f, simp(add(base.n, k))), fn(k))), label or "'%s' events: %s" % (name, f))

    def pred(self, name, key, args):
        ctx = self.ctx
        if self.produce:
            p = Pred(name, key, args); ctx.heap.append(p); return p
        for p in ctx.heap:
            if isinstance(p, Pred) and p.name == name and (p.key is key or ctx.same(p.key, key)):
                if p.ro: ctx.fail("%s is outside the frame" % name, kind="frame")
                ctx.heap.remove(p); return p
        return None

    def finish(self): pass

class Snap:
    def __init__(self, m): self.m = m; self.fields = dict(m.fields); self.dom = m.domarr
    def __getitem__(self, f): return self.fields[f]

def field(tu, recname, path):
    r = tu.rec(recname); o = 0; ty = None; bit = None
    for f in path.split("."):
        if f.endswith("]"):
            nm, ix = f[:-1].split("["); ix = int(ix)
        else: nm, ix = f, None
        x = r.byname[nm]
        o += x[1]; ty = x[2]; bit = x[3]
        if ix is not None:
            ty = ty[1]; o += ix * tu.sizeof(ty)
        if ty[0] == "rec": r = tu.recs[ty[1]]
    return o, ty, bit

class L:
    """loop state seen by an invariant"""
    def __init__(self, ex, fr, counters=()):
        self.ex, self.fr, self.counters = ex, fr, counters
        self.g = ex.spec.g
    def id(self, name):
        if name not in self.fr.names:
            # renamed: the only variable the loop steps
            if len(name) == 1 and len(self.counters) == 1: return self.counters[0]
            raise Annot("no variable %s in %s" % (name, self.fr.name))
        return self.fr.names[name]
    def v(self, name):
        d = self.id(name)
        if d in self.fr.env:
            v = self.fr.env[d]
            if v is UNINIT: raise Annot("variable %s is not initialised at the loop" % name)
            return v
        raise Annot("variable %s is not a scalar" % name)
    def addr(self, name):
        d = self.id(name)
        if d not in self.fr.mem: raise Annot("variable %s is not in memory" % name)
        return self.fr.mem[d]
    def let(self, a, name, val, label=""):
        d = self.id(name)
        if a.produce: self.fr.env[d] = val
        else: a.fact(eq(self.v(name), val), label or "%s has the expected value" % name)

class Contract:
    """base class of contracts"""
    fn = None           # function name in the translation unit
    props = ()
    views = {}          # callees seen as recorded calls: {function: Ev}
    inline = ()         # callees executed in place although they have contracts
    loops = {}          # {(function, ordinal): method name}
    trusted = False
    bounded = None
    unroll = 40
    notes = ""
    def __init__(self): self.reset()
    def reset(self):
        self.g = None; self.used = set(); self.inlined = set(); self.truncated = False
    @property
    def name(self): return type(self).__name__
    def pre(self, a, *args): return G()
    def post(self, a, g, ret, *args): return None
    def trap(self, a, g, *args): return False
    def fnptr(self, ex, target, vals, rt): return NotImplemented
    def builtin(self, ex, name): return None
    def format(self, ex, fmt, v): return None
    def contract(self, name):
        if name in self.inline or (name in OPEN and name not in self.views): return None
        if name in self.views: return self.views[name]
        c = REGISTRY.get(name)
        return c
    def invariant(self, ex, fn, no, node):
        m = self.loops.get((fn, no))
        return getattr(self, m) if m else None
    def unrollable(self, fn, k): return False
    def setup(self, ex): pass

class Ev(Contract):
    """a callee seen only as a recorded call with an arbitrary result; it does not touch what the caller owns.
    The callee's own behaviour is its own contract's matter; its preconditions are not checked here."""
    trusted = True
    def __init__(self, fn, nonnull=False, make=None):
        self.fn, self.nonnull, self.make = fn, nonnull, make; self.reset()
    @property
    def name(self): return "call:" + self.fn
    def post(self, a, g, ret, *args):
        if not a.produce: return
        ctx = a.ctx
        log_append(ctx, "calls", at=0)
        if self.nonnull: ctx.assume(ne(ret, 0))
        c = G(fn=self.fn, args=args, ret=ret)
        if self.make:
            r = self.make(a, c, *args)
            if r is not None: c.ret = ret = r
        ctx.ghosts["calls"] = ctx.ghosts.get("calls", []) + [c]
        return ret
def calls(a, *fns): return [c for c in a.ctx.ghosts.get("calls", []) if not fns or c.fn in fns]

REGISTRY = {}
SPECS = []
OPEN = set()        # helpers whose own contract failed: executed in place while their callers are proved again
def register(cls, callable_=True):
    c = cls()
    SPECS.append(c)
    if cls.fn and callable_ and not getattr(cls, "nocall", False): REGISTRY.setdefault(cls.fn, c)
    return cls

def verify(tu, spec, qtimeout=8000, budget=240, bounded=None, debug=False):
    """all obligations of one function against its contract"""
    import time, traceback
    eng = Engine(qtimeout, budget)
    t0 = time.time()
    spec.reset(); spec.bounded = bounded
    info = dict(reached=0, traps=0)
    f = tu.funcs.get(spec.fn)
    res = dict(spec=spec.name, fn=spec.fn, bounded=bounded)
    if f is None:
        res.update(status="annot", error="function %s is not in the translation unit" % spec.fn); return res
    def run(ctx):
        ex = Exec(tu, ctx, spec)
        spec.setup(ex)
        ps = ex.params(f)
        vals = []
        for p in ps:
            t = tu.ptype(p["type"])
            if "va_list" in p["type"]["qualType"]:
                v = VaList(); v.pack = Pack(None, "va"); v.state = "ready"; vals.append(v); continue
            if t[0] == "arr": t = ("ptr", t[1])
            vals.append(ex.freshval(t, p.get("name", "arg")))
        pack = None
        if f.get("variadic"):
            pack = Pack(None, "va"); vals.append(pack)
        a = A(ex, True); a.verify = True
        g = spec.pre(a, *vals)
        spec.g = g
        if ctx._check([])[0] == z3.unsat:
            raise PathEnd()
        info["reached"] += 0
        trapc = spec.trap(a, g, *vals)
        try:
            ret = ex.callbody(f, spec.fn, vals)
            trapped = False
        except TrapEx:
            trapped = True
            ex.frames[:] = []
        ctx.where = "%s: post" % spec.fn
        if trapped:
            ctx.prove(trapc, "traps only where the contract says so", kind="trap"); info["traps"] += 1
            info["reached"] += 1
            return
        if trapc is not False:
            ctx.prove(Not(trapc), "traps where the contract says so", kind="trap")
        a = A(ex, False); a.verify = True
        spec.post(a, g, ret, *vals)
        for c in ctx.heap:
            if isinstance(c, Chunk) and c.kind == "heap" and not c.ro and c.free:
                ctx.fail("block %s is neither freed nor described by the contract (leak)" % c.name, kind="leak")
            if isinstance(c, Pred) and not c.ro:
                ctx.fail("predicate %s is left over" % c.name, kind="leak")
        # the assumptions made on this path must not contradict each other
        if ctx.recorded(lambda: ctx._check([], True)[0] == z3.unsat): info["dead"] = info.get("dead", 0) + 1
        else: info["reached"] += 1
    err = None; status = None
    try:
        eng.explore(run)
    except Unsupported as e: status, err = "unsupported", str(e)
    except Annot as e: status, err = "annot", str(e)
    except RecursionError: status, err = "unsupported", "recursion"
    except Exception as e:
        if debug: raise
        status, err = "internal", traceback.format_exc()[-800:]
    if status is None:
        if eng.failed: status = "failed"
        elif info["reached"] == 0: status, err = "vacuous", "no path reaches the postcondition"
        else: status = "proved"
    elif eng.failed: res["note"] = err; status = "failed"
    res.update(status=status, error=err, proved=eng.proved, failed=eng.failed, labels=len(eng.obl), paths=eng.paths,
               reached=info["reached"], solver_s=round(eng.solver_time, 2), wall_s=round(time.time() - t0, 2),
               used=sorted(spec.used), inlined=sorted(spec.inlined), obligations=sorted(eng.obl), unknown=eng.unknown,
               truncated=spec.truncated, dead=info.get("dead", 0))
    return res
