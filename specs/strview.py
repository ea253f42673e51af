"""strview.c (C14): every view operation against the text it is given, for every text and length."""
from .base import *

def isspace(c): return Or(eq(c, 32), And(le(9, c), le(c, 13)))
def isdigit(c): return And(le(48, c), le(c, 57))
def lower(c): return If(And(le(65, c), le(c, 90)), add(c, 32), c)
MAXT = 1 << 46

class View:
    """a text of n readable bytes at p"""
    def __init__(self, a, p, n, name="text"):
        self.p, self.n, self.empty, ctx = p, n, False, a.ctx
        self.off = 0; self.raw = None
        a.fact(le(n, MAXT), "length in range")
        if a.branch(eq(n, 0)): self.empty = True; return
        if a.produce:
            cv = a.chunk(p, n, name, ro=True); self.raw = cv.seg(0, 1, n, CH, name=name); cv.ch.ro = True
        else:
            r = ctx.find(simp(p))
            if r is None: r = ctx.find_sem(p)
            if r is None: ctx.fail("%s is not readable here" % name, kind="own")
            ch, d = r
            ctx.prove(And(le(0, d), le(add(d, n), ch.size)), "%s lies inside %s" % (name, ch.name))
            ch, s, i = a.ex.bytes_at(p, "text")
            self.raw = s.fields[0][1]; self.off = i
    def get(self, ctx, k): return self.raw.get(ctx, simp(add(self.off, k)))
    def forall(self, a, f, label, extra=()):
        """f(k) for all k (guard inside f)"""
        ctx = a.ctx
        if self.empty: return
        if a.produce: ctx.addfact(ctx.arr_bases(self.raw), lambda t: f(simp(sub(t, self.off))))
        else: a.fact(f(ctx.fresh("k")), label)

def sval(sv): return sv.cells[0][2], sv.cells[8][2]       # count, data

class SvOp(Contract):
    props = ("C14",)
    def ret(self, a, r, p, n, what):
        if a.produce: return StructVal(16, {0: (8, False, simp(n)), 8: (8, False, simp(p))})
        c, d = sval(r)
        a.fact(And(eq(c, n), eq(d, p)), what)

def view_in(a, sv, name="text"):
    n, p = sval(sv)
    v = View(a, p, n, name)
    a.fact(And(ge(p, 0), le(p, 1 << 48)), "an address")
    return v

def own_view(a, svp):
    """*svp and the text it denotes"""
    cv = a.rec(svp, "String_View")
    n, p = cv.f("count"), cv.f("data")
    v = View(a, p, n)
    a.fact(And(ge(p, 0), le(p, 1 << 47)), "an address")
    v.cv = cv
    return v

def set_view(a, svp, p, n, what):
    cv = a.rec(svp, "String_View")
    cv.setf("count", n, what + " (length)"); cv.setf("data", p, what + " (start)")

@register
class SvFromParts(SvOp):
    fn = "sv_from_parts"
    def pre(self, a, p, n): return G()
    def post(self, a, g, ret, p, n): return self.ret(a, ret, p, n, "the view denotes the given part")

@register
class SvFromCstr(SvOp):
    fn = "sv_from_cstr"; nocall = True
    def pre(self, a, s):
        n = a.int("n"); a.fact(And(le(1, n), le(n, SZ)))
        cv = a.chunk(s, n, "text", ro=True); arr = cv.seg(0, 1, n, CH)
        w = a.int("w"); a.fact(And(le(0, w), lt(w, n))); a.fact(eq(arr.get(a.ctx, w), 0)); cv.nul(w)
        return G(arr=arr, n=n)
    def post(self, a, g, ret, s):
        c, d = sval(ret); ctx = a.ctx
        a.fact(eq(d, s), "the view starts at the string")
        a.fact(And(le(0, c), lt(c, g.n), eq(g.arr.get(ctx, c), 0)), "the view ends at the terminator")
        a.forall([g.arr], lambda k: Implies(And(le(0, k), lt(k, c)), ne(g.arr.get(ctx, k), 0)), "no terminator inside the view")

class Scan(SvOp):
    """loops that walk the text while 'go' holds of the byte; at(i) is the byte examined i-th"""
    def go(self, c): raise NotImplementedError
    def at(self, v, i): return i
    def scan(self, a, L):
        v = L.g.v; i = L.v("i"); ctx = a.ctx
        a.fact(And(le(0, i), le(i, v.n)), "i within the text")
        self.prefix(a, L.g, i)
        self.more(a, L)
    def more(self, a, L):
        if hasattr(L.g, "svp"): set_view(a, L.g.svp, L.g.v.p, L.g.v.n, "the view is unchanged so far")
    def prefix(self, a, g, i):
        v = g.v; ctx = a.ctx
        def f(k):   # k: index in the text
            j = self.at(v, k)
            return Implies(And(le(0, k), lt(k, v.n), lt(j, i)), self.go(v.get(ctx, k), g))
        v.forall(a, f, "everything before is of the kind skipped")
    def stop(self, a, g, i):
        v = g.v; ctx = a.ctx
        a.fact(And(le(0, i), le(i, v.n)), "result within the text")
        self.prefix(a, g, i)
        if v.empty: return
        if a.branch(lt(i, v.n)): a.fact(Not(self.go(v.get(ctx, simp(self.at(v, i))), g)), "stops at the first other byte")

@register
class SvTrimLeft(Scan):
    fn = "sv_trim_left"; loops = {("sv_trim_left", 0): "scan"}
    def go(self, c, g): return isspace(c)
    def pre(self, a, sv): return G(v=view_in(a, sv))
    def post(self, a, g, ret, sv):
        c, d = sval(ret); i = simp(sub(d, g.v.p)) if not a.produce else a.ctx.fresh("i", 0, MAXT)
        r = self.ret(a, ret, add(g.v.p, i), sub(g.v.n, i), "the view still ends where the text ends")
        self.stop(a, g, i)
        return r

@register
class SvTrimRight(Scan):
    fn = "sv_trim_right"; loops = {("sv_trim_right", 0): "scan"}
    def go(self, c, g): return isspace(c)
    def at(self, v, i): return simp(sub(sub(v.n, 1), i))
    def pre(self, a, sv): return G(v=view_in(a, sv))
    def post(self, a, g, ret, sv):
        c, d = sval(ret)
        r = self.ret(a, ret, g.v.p, c, "the view still starts where the text starts")
        self.stop(a, g, simp(sub(g.v.n, c)))
        return r

@register
class SvTrim(SvOp):
    fn = "sv_trim"
    def pre(self, a, sv): return G(v=view_in(a, sv))
    def post(self, a, g, ret, sv):
        v = g.v; ctx = a.ctx
        c, d = sval(ret); i = simp(sub(d, v.p)); e = simp(add(i, c))
        a.fact(And(le(0, i), le(0, c), le(e, v.n)), "the result lies inside the text")
        v.forall(a, lambda k: Implies(And(le(0, k), lt(k, v.n), Or(lt(k, i), ge(k, e))), isspace(v.get(ctx, k))), "only white space is dropped")
        if v.empty: return
        if a.branch(gt(c, 0)):
            a.fact(Not(isspace(v.get(ctx, i))), "no leading white space left")
            a.fact(Not(isspace(v.get(ctx, simp(sub(e, 1))))), "no trailing white space left")

@register
class SvTakeLeftWhile(Scan):
    fn = "sv_take_left_while"; loops = {("sv_take_left_while", 0): "scan"}; nocall = True
    def go(self, c, g): return z3.Function("pred", INT, z3.BoolSort())(T(c))
    def fnptr(self, ex, target, vals, rt):
        ex.ctx.prove(eq(target, self.g.pred), "the predicate given is the one called")
        return ex.b2i(self.go(vals[0], None))
    def pre(self, a, sv, pred): return G(v=view_in(a, sv), pred=pred)
    def post(self, a, g, ret, sv, pred):
        c, d = sval(ret)
        a.fact(eq(d, g.v.p), "the result starts where the text starts")
        self.stop(a, g, c)

@register
class SvChopLeftWhile(SvTakeLeftWhile):
    fn = "sv_chop_left_while"; loops = {("sv_chop_left_while", 0): "scan"}
    def pre(self, a, svp, pred): return G(v=own_view(a, svp), pred=pred, svp=svp)
    def post(self, a, g, ret, svp, pred):
        c, d = sval(ret); v = g.v
        a.fact(eq(d, v.p), "the result starts where the text starts")
        self.stop(a, g, c)
        set_view(a, svp, add(v.p, c), sub(v.n, c), "the rest follows the result")

@register
class SvIndexOf(Scan):
    fn = "sv_index_of"; nocall = True; loops = {("sv_index_of", 0): "scan"}
    def go(self, c, g): return ne(c, g.c)
    def more(self, a, L):
        if L.g.out is not None: a.chunk(L.g.index, 8, "index")
        L.g.i = L.v("i")
    def pre(self, a, sv, c, index):
        g = G(v=view_in(a, sv), c=c, index=index, out=None)
        if not a.branch(eq(index, 0)):
            cv = a.chunk(index, 8, "index"); g.out = True; g.old = cv.get(0, U64)
        return g
    def post(self, a, g, ret, sv, c, index):
        v = g.v; ctx = a.ctx
        if g.out: cv = a.chunk(index, 8, "index")
        if a.branch(ne(ret, 0)):
            a.fact(eq(ret, 1), "true is 1")
            if g.out:
                i = cv.get(0, U64) if not a.produce else ctx.fresh("ix", 0, MAXT)
                if a.produce: cv.set(0, U64, i)
                a.fact(lt(i, v.n), "the index lies in the text")
                self.stop(a, g, i)
            elif not v.empty and hasattr(g, "i"):
                a.fact(lt(g.i, v.n), "the byte occurs"); self.stop(a, g, g.i)
        else:
            self.stop(a, g, v.n)

@register
class SvTryChopByDelim(Scan):
    fn = "sv_try_chop_by_delim"; loops = {("sv_try_chop_by_delim", 0): "scan"}
    def go(self, c, g): return ne(c, g.d)
    def pre(self, a, svp, d, chunk):
        g = G(v=own_view(a, svp), d=d, svp=svp, chunk=chunk, out=False)
        if not a.branch(eq(chunk, 0)): a.rec(chunk, "String_View", name="chunk"); g.out = True
        return g
    def more(self, a, L):
        Scan.more(self, a, L)
        if L.g.out: a.rec(L.g.chunk, "String_View", name="chunk")
    def post(self, a, g, ret, svp, d, chunk):
        v = g.v; ctx = a.ctx
        if a.branch(ne(ret, 0)):
            a.fact(eq(ret, 1), "true is 1")
            cv = a.rec(svp, "String_View"); n2 = cv.f("count")
            i = simp(sub(sub(v.n, 1), n2))
            cv.setf("data", add(v.p, add(i, 1)), "the rest follows the delimiter")
            a.fact(lt(i, v.n), "the delimiter lies in the text")
            self.stop(a, g, i)
            if g.out:
                cc = a.rec(chunk, "String_View", name="chunk")
                cc.setf("count", i, "the chunk is the text before the delimiter"); cc.setf("data", v.p)
        else:
            set_view(a, svp, v.p, v.n, "nothing is chopped")
            self.stop(a, g, v.n)
            if g.out: a.rec(chunk, "String_View", name="chunk")

@register
class SvChopByDelim(Scan):
    fn = "sv_chop_by_delim"; loops = {("sv_chop_by_delim", 0): "scan"}
    def go(self, c, g): return ne(c, g.d)
    def pre(self, a, svp, d): return G(v=own_view(a, svp), d=d, svp=svp)
    def post(self, a, g, ret, svp, d):
        v = g.v
        i, p = sval(ret)
        a.fact(eq(p, v.p), "the result starts where the text starts")
        self.stop(a, g, i)
        found = lt(i, v.n)
        set_view(a, svp, If(found, add(v.p, add(i, 1)), add(v.p, i)), If(found, sub(sub(v.n, i), 1), 0), "the rest follows the delimiter")

@register
class SvChopLeft(SvOp):
    fn = "sv_chop_left"
    def pre(self, a, svp, n): return G(v=own_view(a, svp))
    def post(self, a, g, ret, svp, n):
        v = g.v; m = If(gt(n, v.n), v.n, n)
        r = self.ret(a, ret, v.p, m, "the first min(n, count) bytes")
        set_view(a, svp, add(v.p, m), sub(v.n, m), "the rest follows them")
        return r

@register
class SvChopRight(SvOp):
    fn = "sv_chop_right"
    def pre(self, a, svp, n): return G(v=own_view(a, svp))
    def post(self, a, g, ret, svp, n):
        v = g.v; m = If(gt(n, v.n), v.n, n)
        self.ret(a, ret, add(v.p, sub(v.n, m)), m, "the last min(n, count) bytes")
        set_view(a, svp, v.p, sub(v.n, m), "the rest precedes them")

@register
class SvChopBySv(SvOp):
    """M[j]: the delimiter occurs at j (its definition is assumed of an arbitrary M: M[j] gives agreement of every byte,
    not M[j] gives a position W[j] of a difference)"""
    boundable = False
    fn = "sv_chop_by_sv"; loops = {("sv_chop_by_sv", 0): "search"}; nocall = True; inline = ("sv_eq",)
    def pre(self, a, svp, dl):
        g = G(v=own_view(a, svp), svp=svp, d=view_in(a, dl, "delimiter"))
        g.M = BBase(a.ctx, "M"); g.W = a.array("W", U64)
        g.js = []
        return g
    def occurs(self, a, g, j):
        """M[j], with its definition instantiated where it matters"""
        ctx = a.ctx; v, d = g.v, g.d
        M = g.M.get(ctx, j)
        if d.empty: ctx.assume(M); return M
        if v.empty: return M
        def agree(k): return Implies(And(M, le(0, k), lt(k, d.n)), eq(v.get(ctx, simp(add(j, k))), d.get(ctx, k)))
        for k in list(ctx.diffs): ctx.assume(agree(k))
        w = g.W.get(ctx, j)
        ctx.assume(Implies(And(Not(M), le(add(j, d.n), v.n)), And(lt(w, d.n), ne(v.get(ctx, simp(add(j, w))), d.get(ctx, w)))))
        return M
    def none_before(self, a, g, i):
        ctx = a.ctx
        if a.produce: ctx.addfact([g.M], lambda j: Implies(And(le(0, j), lt(j, i)), Not(g.M.get(ctx, j))))
        else:
            j = ctx.fresh("j")
            if a.branch(eq(j, sub(i, 1))): self.occurs(a, g, simp(sub(i, 1)))
            a.fact(Implies(And(le(0, j), lt(j, i)), Not(g.M.get(ctx, j))), "no delimiter before")
    def search(self, a, L):
        g = L.g; v = g.v; i = L.v("i")
        set_view(a, g.svp, v.p, v.n, "the view is unchanged so far")
        a.fact(And(le(0, i), Or(le(add(i, g.d.n), v.n), eq(i, 0), le(add(i, g.d.n), add(v.n, 1)))), "i within the text")
        w = a.rec(L.addr("window"), "String_View", name="window", kind="local")
        w.setf("count", g.d.n, "the window is as long as the delimiter"); w.setf("data", add(v.p, i), "the window is at i")
        self.none_before(a, g, i)
    def post(self, a, g, ret, svp, dl):
        ctx = a.ctx; v, d = g.v, g.d
        c, p = sval(ret)
        cv = a.rec(svp, "String_View"); n2, p2 = cv.f("count"), cv.f("data")
        a.fact(eq(p, v.p), "the result starts where the text starts")
        i = c
        if a.branch(And(le(add(c, d.n), v.n), self.occurs(a, g, i))):
            a.fact(And(eq(n2, sub(sub(v.n, c), d.n)), eq(p2, add(v.p, add(c, d.n)))), "the rest follows the delimiter")
            self.none_before(a, g, i)
        else:
            a.fact(And(eq(c, v.n), eq(n2, 0), eq(p2, add(v.p, v.n))), "without a delimiter everything is chopped")
            self.none_before(a, g, add(sub(v.n, d.n), 1))

class SvCmp(SvOp):
    def off(self, va, vb): return 0
    def norm(self, c): return c
    def pre(self, a, x, y):
        va = view_in(a, x, "first text"); vb = view_in(a, y, "second text")
        return G(va=va, vb=vb)
    def same(self, a, g, ret, cond):
        """ret is 1 exactly when cond and the bytes agree"""
        ctx = a.ctx; va, vb = g.va, g.vb; o = simp(self.off(va, vb))
        if a.branch(ne(ret, 0)):
            a.fact(eq(ret, 1), "true is 1"); a.fact(cond, "true only when the lengths fit")
            if not vb.empty and not va.empty:
                vb.forall(a, lambda k: Implies(And(le(0, k), lt(k, vb.n)), eq(self.norm(va.get(ctx, simp(add(o, k)))), self.norm(vb.get(ctx, k)))), "true only when every byte agrees")
        else:
            d = ctx.fresh("d")
            if not a.produce:
                ws = [w for w in g.__dict__.get("wit", [])] + [x for x in self.wits(a)]
                diff = Or(*[And(le(0, w), lt(w, vb.n), ne(self.norm(va.get(ctx, simp(add(o, w)))), self.norm(vb.get(ctx, w)))) for w in ws]) if not va.empty and not vb.empty else False
                a.fact(Or(Not(cond), diff), "false only when the lengths or a byte differ")
            elif va.empty or vb.empty: a.fact(Not(cond))
            else: a.fact(Or(Not(cond), And(le(0, d), lt(d, vb.n), ne(self.norm(va.get(ctx, simp(add(o, d)))), self.norm(vb.get(ctx, d))))))
    def wits(self, a):
        """positions of a difference known on this path"""
        return list(a.ctx.diffs)

@register
class SvEq(SvCmp):
    fn = "sv_eq"; nocall = True
    def post(self, a, g, ret, x, y): self.same(a, g, ret, eq(g.va.n, g.vb.n))

@register
class SvEqIgnorecase(SvCmp):
    boundable = False
    fn = "sv_eq_ignorecase"; loops = {("sv_eq_ignorecase", 0): "scan"}
    def norm(self, c): return lower(c)
    def scan(self, a, L):
        g = L.g; i = L.v("i"); ctx = a.ctx
        a.fact(And(le(0, i), le(i, g.va.n)), "i within the texts")
        self.i = i
        g.wit = [i]
        g.va.forall(a, lambda k: Implies(And(le(0, k), lt(k, i)), eq(lower(g.va.get(ctx, k)), lower(g.vb.get(ctx, k)))), "the texts agree so far")
    def post(self, a, g, ret, x, y): self.same(a, g, ret, eq(g.va.n, g.vb.n))

@register
class SvStartsWith(SvCmp):
    fn = "sv_starts_with"; nocall = True
    def post(self, a, g, ret, x, y): self.same(a, g, ret, le(g.vb.n, g.va.n))

@register
class SvEndsWith(SvStartsWith):
    fn = "sv_ends_with"
    def off(self, va, vb): return sub(va.n, vb.n)

def number(a, v):
    """N[k]: value modulo 2^64 of the first k bytes read as decimal digits"""
    ctx = a.ctx
    N = Base(ctx, "N", 8, False, True)
    M = 1 << 64
    ctx.assume(eq(N.get(ctx, 0), 0))
    if not v.empty:
        ctx.addfact([N], lambda t: Implies(And(lt(0, t), le(t, v.n)), eq(z3.Select(N.A, T(t)), T(add(mul(10, z3.Select(N.A, T(sub(t, 1)))), sub(v.get(ctx, simp(sub(t, 1))), 48))) % M)))
    return N

@register
class SvToU64(Scan):
    boundable = False
    fn = "sv_to_u64"; loops = {("sv_to_u64", 0): "scan"}; nocall = True
    def go(self, c, g): return isdigit(c)
    def pre(self, a, sv):
        g = G(v=view_in(a, sv)); g.N = number(a, g.v); return g
    def more(self, a, L):
        L.let(a, "result", L.g.N.get(a.ctx, L.v("i")), "the value of the digits so far")
        L.g.i = L.v("i")
    def post(self, a, g, ret, sv):
        i = getattr(g, "i", 0)
        if g.v.empty: i = 0
        a.fact(eq(ret, g.N.get(a.ctx, i)), "the value of the leading digits modulo 2^64")
        self.stop(a, g, i)

@register
class SvChopU64(Scan):
    boundable = False
    fn = "sv_chop_u64"; loops = {("sv_chop_u64", 0): "scan"}; nocall = True
    def go(self, c, g): return isdigit(c)
    def pre(self, a, svp):
        g = G(v=own_view(a, svp), svp=svp); g.N = number(a, g.v); return g
    def scan(self, a, L):
        g = L.g; v = g.v
        cv = a.rec(g.svp, "String_View")
        if a.produce: i = a.ctx.fresh("i"); cv.setf("count", sub(v.n, i))
        else: i = simp(sub(v.n, cv.f("count")))
        a.fact(And(le(0, i), le(i, v.n)), "within the text")
        cv.setf("data", add(v.p, i), "the rest starts after the digits read")
        self.prefix(a, g, i)
        L.let(a, "result", g.N.get(a.ctx, i), "the value of the digits so far")
    def post(self, a, g, ret, svp):
        v = g.v; cv = a.rec(svp, "String_View"); i = simp(sub(v.n, cv.f("count")))
        cv.setf("data", add(v.p, i), "the rest starts after the digits")
        a.fact(eq(ret, g.N.get(a.ctx, i)), "the value of the leading digits modulo 2^64")
        self.stop(a, g, i)
