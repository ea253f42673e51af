"""str.c: strings (C12), their constructors on the chain (C07), substring replacement (C13)."""
from .base import *

SH = "_cee_str_header"
MALLOC = 1
HUGE = 1 << 40

def soff(a): return a.tu.off(SH, "_")
def hsize(a): return a.tu.rec(SH).size

def str_own(a, p, text=True):
    """the string at p: text arr with its first terminator at n"""
    ctx = a.ctx; off = soff(a)
    M = a.fresh("strsize") if a.produce else False
    cv = own(a, p, SH, "_", "string", size=M)
    s = sect(a); sec = cv.sect; M = cv.ch.size
    cap = cv.f("capacity")
    a.fact(And(le(hsize(a), M), le(M, SZ)), "the block is large enough for its header")
    a.fact(eq(s["mem_block_size"].get(ctx, sec), M), "the recorded block size is the real one")
    a.fact(le(add(cap, hsize(a)), M), "the recorded capacity never exceeds the storage that follows the header")
    g = G(cv=cv, M=M, cap=cap, sec=sec, p=p)
    if text:
        room = simp(sub(M, off))
        arr = cv.seg(off, 1, room, CH, name="text")
        n = ctx.fresh("n", 0, SZ)
        if a.produce:
            ctx.assume(And(lt(n, cap), eq(arr.get(ctx, n), 0)))
            ctx.addfact([arr], lambda t: Implies(And(le(0, t), lt(t, n)), ne(arr.get(ctx, t), 0)))
            cv.nul(n)
        g.arr, g.n, g.room = arr, n, room
    return g

def str_is(a, g, p, n, f, what, M=None, cap=None):
    """consume: the string at p is f(0..n-1) and terminated there; M: block size (None: as it is)"""
    ctx = a.ctx; off = soff(a)
    cv = own(a, p, SH, "_", "string", size=False)
    s = sect(a); M1 = cv.ch.size
    c = cv.f("capacity")
    a.fact(eq(s["mem_block_size"].get(ctx, cv.sect), M1), "the recorded block size is the real one")
    a.fact(le(add(c, hsize(a)), M1), "the recorded capacity never exceeds the storage that follows the header")
    arr = cv.seg(off, 1, simp(sub(M1, off)), CH)
    a.fact(And(lt(n, c), eq(arr.get(ctx, n), 0)), what + ": terminated within the capacity")
    k = ctx.fresh("k")
    a.fact(Implies(And(le(0, k), lt(k, n)), eq(arr.get(ctx, k), f(k))), what)
    return cv

def keep_str(a, g, what="the old block is unchanged"):
    """g's block is as before (all of it)"""
    cv = own(a, g.p, SH, "_", "string", size=g.M)
    cv.setf("capacity", g.cap, what)
    cv.setseg(soff(a), 1, g.room, g.arr, CH, label=what)
    return cv

def strblock(fr, ret, n, f, what, mincap=None, trace="_cee_str_trace"):
    """ret is a fresh string f(0..n-1)"""
    a = fr.a; ctx = a.ctx; off = soff(a)
    hdr = dict(trace=faddr(a, trace), resize_method=MALLOC, cmp=faddr(a, "strcmp"), cmp_stop_at_null=1)
    if a.produce:
        M = ctx.fresh("strsize", hsize(a), SZ + 4096)
        cv = fr.block(ret, SH, "_", M, mem_block_size=M, **hdr)
        cap = ctx.fresh("cap", 0, SZ + 4096); cv.setf("capacity", cap); ctx.assume(And(lt(n, cap), le(add(cap, hsize(a)), M)))
        arr = cv.seg(off, 1, simp(sub(M, off)), CH, name="text")
        ctx.assume(eq(arr.get(ctx, n), 0)); cv.nul(n)
        ctx.addfact([arr], lambda t: Implies(And(le(0, t), lt(t, n)), eq(arr.get(ctx, t), f(t))))
        return cv
    base = simp(sub(ret, off))
    r = ctx.find(base) or ctx.find_sem(base)
    if r is None: ctx.fail("a fresh string block is returned", kind="own")
    M = r[0].size
    cv = fr.block(ret, SH, "_", M, mem_block_size=M, **hdr)
    c = cv.f("capacity")
    a.fact(le(add(c, hsize(a)), M), "the recorded capacity never exceeds the storage that follows the header")
    if mincap is not None: a.fact(ge(c, mincap), "the capacity asked for")
    arr = cv.seg(off, 1, simp(sub(M, off)), CH)
    a.fact(And(lt(n, c), eq(arr.get(ctx, n), 0)), what + ": terminated within the capacity")
    if cval(n) != 0:
        k = ctx.fresh("k")
        a.fact(Implies(And(le(0, k), lt(k, n)), eq(arr.get(ctx, k), f(k))), what)
    return cv

def newstr(a, g, ret, sv, n, f, what, mincap=None, trace="_cee_str_trace"):
    fr = Fresh(a, g, sv)
    cv = strblock(fr, ret, n, f, what, mincap, trace)
    fr.done()
    return cv

def inchain(a, st):
    s = sect(a); sv = state_own(a, st); tail = chain_ok(a, sv)
    return G(s=s, st=sv, tail=tail)

def fmt_of(a, fmt, v):
    """(array, length) of the text the format and its arguments denote"""
    if isinstance(v, Pack):
        w = VaList(); w.pack = v; w.state = "ready"; v = w
    return a.ex.fmttext(fmt, v)

class StrMk(Contract):
    props = ("C12", "C07")
    def trap(self, a, g, st, *r): return eq(self.fmtarg(*r), 0)
    def fmtarg(self, *r): return r[0]
    def pre(self, a, st, *r):
        g = inchain(a, st)
        fmt, v = self.fmtarg(*r), r[-1]
        g.F, g.L = fmt_of(a, fmt, v)
        if not a.produce and isinstance(v, VaList) and v.state != "ready": a.ctx.fail("the argument list is %s" % v.state, kind="ub")
        a.fact(lt(g.L, SZ - 4096), "text below 2^31 bytes")
        g.v = v
        return g
    def post(self, a, g, ret, st, *r):
        sv = state_own(a, st); keep_state(a, g.st, sv)
        if a.produce and isinstance(g.v, VaList): g.v.state = "indeterminate after use"
        newstr(a, g, ret, sv, g.L, lambda k: g.F.get(a.ctx, k), "the string is the formatted text")

@register
class StrMkv(StrMk): fn = "cee_str_mkv"
@register
class StrMk1(StrMk): fn = "cee_str_mk"

@register
class StrMkE(StrMk):
    fn = "cee_str_mk_e"
    def trap(self, a, g, *r): return False
    def pre(self, a, st, n, fmt, v):
        g = inchain(a, st); g.v = v
        g.z = a.branch(eq(fmt, 0)); a.fact(lt(n, SZ - 4096), "size below 2^31")
        if not g.z:
            g.F, g.L = fmt_of(a, fmt, v); a.fact(lt(g.L, SZ - 4096), "text below 2^31 bytes")
        return g
    def post(self, a, g, ret, st, n, fmt, v):
        sv = state_own(a, st); keep_state(a, g.st, sv)
        if g.z: newstr(a, g, ret, sv, 0, None, "the string is empty", mincap=n)
        else: newstr(a, g, ret, sv, g.L, lambda k: g.F.get(a.ctx, k), "the string is the formatted text")

@register
class StrStrn(Contract):
    fn = "cee_str_strn"; props = ("C12", "C07")
    def pre(self, a, st, p, n):
        g = inchain(a, st)
        a.fact(lt(n, SZ - 4096), "size below 2^31")
        g.arr = None
        if a.branch(gt(n, 0)):
            if a.produce:
                cv = a.chunk(p, n, "bytes", ro=True); g.arr = cv.seg(0, 1, n, CH); g.o = 0
            else:
                ch, s, i = a.ex.bytes_at(p, "bytes given"); a.fact(le(add(i, n), s.count), "the bytes given are readable"); g.arr, g.o = s.fields[0][1], i
        return g
    def post(self, a, g, ret, st, p, n):
        sv = state_own(a, st); keep_state(a, g.st, sv)
        newstr(a, g, ret, sv, n, lambda k: g.arr.get(a.ctx, simp(add(k, g.o))) if g.arr is not None else 0, "the string holds the bytes given")

class StrMut(Contract):
    props = ("C12", "C07"); nocall = True
    def chain(self, a, g):
        stp = g.s["state"].get(a.ctx, g.l.sec)
        g.stp = stp; g.st = state_own(a, stp); g.tail = chain_ok(a, g.st)
        a.fact(ne(g.l.sec, sect0(stp)), "a string is not its state")
    def own(self, a, p):
        g = G(s=sect(a)); g.l = str_own(a, p)
        a.fact(eq(g.s["resize_method"].get(a.ctx, g.l.sec), MALLOC), "strings are resized by copying")
        self.chain(a, g)
        return g
    def same(self, a, g):
        sv = state_own(a, g.stp); keep_state(a, g.st, sv); sv.setf("_.trace_tail", g.tail, "the chain is unchanged")
        a.map_is("SECT", g.s.fields, g.s.dom, "no header changes")
    def result(self, a, g, ret, p, n, f, what):
        ctx = a.ctx
        if a.branch(eq(ret, p)):
            str_is(a, g.l, p, n, f, what); self.same(a, g)
        else:
            keep_str(a, g.l)
            sv = state_own(a, g.stp); keep_state(a, g.st, sv)
            off = soff(a); base = simp(sub(ret, off))
            r = ctx.find(base) or ctx.find_sem(base)
            if r is None: ctx.fail("a fresh string block is returned", kind="own")
            M = r[0].size; s = g.s; x = g.l.sec
            cv = newblock(a, g, ret, SH, "_", sv, M, mem_block_size=M, **{k: s[k].get(ctx, x) for k in SECTF if k not in ("state", "trace_prev", "trace_next", "mem_block_size")})
            c = cv.f("capacity")
            a.fact(le(add(c, hsize(a)), M), "the recorded capacity never exceeds the storage that follows the header")
            arr = cv.seg(off, 1, simp(sub(M, off)), CH)
            a.fact(And(lt(n, c), eq(arr.get(ctx, n), 0)), what + ": terminated within the capacity")
            k = ctx.fresh("k")
            a.fact(Implies(And(le(0, k), lt(k, n)), eq(arr.get(ctx, k), f(k))), what)

@register
class StrAdd(StrMut):
    fn = "cee_str_add"
    def pre(self, a, p, c):
        g = self.own(a, p); a.fact(lt(g.l.M, SZ >> 2)); return g
    def post(self, a, g, ret, p, c):
        l = g.l; ctx = a.ctx
        n = simp(If(eq(c, 0), l.n, add(l.n, 1)))
        self.result(a, g, ret, p, n, lambda k: If(eq(k, l.n), c, l.arr.get(ctx, k)), "the text is the old text and the character")

@register
class StrCatf(StrMut):
    fn = "cee_str_catf"
    def pre(self, a, p, fmt, v):
        g = self.own(a, p); a.fact(lt(g.l.M, SZ >> 2)); g.z = a.branch(eq(fmt, 0))
        if not g.z: g.F, g.L = fmt_of(a, fmt, v); a.fact(lt(g.L, SZ >> 2))
        return g
    def post(self, a, g, ret, p, fmt, v):
        l = g.l; ctx = a.ctx
        if g.z:
            a.fact(eq(ret, p), "without a format the string itself is returned"); keep_str(a, l, "without a format nothing changes"); self.same(a, g); return
        def f(k): return If(lt(k, l.n), l.arr.get(ctx, k), g.F.get(ctx, simp(sub(k, l.n))))
        self.result(a, g, ret, p, simp(add(l.n, g.L)), f, "the text is the old text and the formatted text")

@register
class StrReplace(StrCatf):
    fn = "cee_str_replace"
    def post(self, a, g, ret, p, fmt, v):
        if g.z: return StrCatf.post(self, a, g, ret, p, fmt, v)
        self.result(a, g, ret, p, g.L, lambda k: g.F.get(a.ctx, k), "the text is the formatted text")

def blank(c): return Or(eq(c, 32), eq(c, 10), eq(c, 13), eq(c, 9))

class StrTrim(Contract):
    props = ("C12",); nocall = True
    def pre(self, a, p):
        l = str_own(a, p); a.fact(lt(l.n, SZ - 1))
        return G(l=l, p=p, s=sect(a))
    def newlen(self, a, p):
        return a.ex.cstr(p, "strlen of the result")[2]
    def same(self, a, g): a.map_is("SECT", g.s.fields, g.s.dom, "no header changes")
    def block(self, a, g):
        cv = own(a, g.p, SH, "_", "string", size=g.l.M); cv.setf("capacity", g.l.cap, "the capacity is unchanged"); return cv

@register
class StrRtrim(StrTrim):
    fn = "cee_str_rtrim"; loops = {("cee_str_rtrim", 0): "down"}
    def down(self, a, L):
        g = L.g; l = g.l; ctx = a.ctx; i = L.v("i")
        a.fact(And(le(-1, i), lt(i, l.n)), "i within the text")
        cv = self.block(a, g)
        arr = cv.seg(soff(a), 1, l.room, CH, name="text")
        if a.produce: cv.nul(l.n)
        a.forall([arr], lambda k: Implies(And(le(0, k), le(k, i)), eq(arr.get(ctx, k), l.arr.get(ctx, k))), "the text up to i is unchanged")
        a.forall([arr], lambda k: Implies(And(lt(i, k), le(k, l.n), le(0, k)), eq(arr.get(ctx, k), 0)), "everything after i is cleared")
        a.forall([l.arr], lambda k: Implies(And(lt(i, k), lt(k, l.n), le(0, k)), blank(l.arr.get(ctx, k))), "only blanks are cleared")
        if a.produce: arr.get(ctx, simp(add(i, 1)))
    def post(self, a, g, ret, p):
        l = g.l; ctx = a.ctx
        e = self.newlen(a, p)
        str_is(a, l, p, e, lambda k: l.arr.get(ctx, k), "the text is a prefix of the old text")
        a.fact(le(e, l.n), "not longer than before")
        k = ctx.fresh("k")
        a.fact(Implies(And(le(e, k), lt(k, l.n)), blank(l.arr.get(ctx, k))), "only trailing blanks are removed")
        a.fact(Or(eq(e, 0), Not(blank(l.arr.get(ctx, simp(sub(e, 1)))))), "no trailing blank is left")
        self.same(a, g)

@register
class StrLtrim(StrTrim):
    fn = "cee_str_ltrim"; loops = {("cee_str_ltrim", 0): "up"}
    def up(self, a, L):
        g = L.g; l = g.l; ctx = a.ctx; i = L.v("i")
        a.fact(And(le(0, i), le(i, l.n)), "i within the text")
        if "start" in L.fr.names: L.let(a, "start", i, "start is the number of blanks seen")
        cv = self.block(a, g)
        cv.setseg(soff(a), 1, l.room, l.arr, CH, label="the text is unchanged so far")
        if a.produce: cv.nul(l.n)
        a.forall([l.arr], lambda k: Implies(And(le(0, k), lt(k, i)), blank(l.arr.get(ctx, k))), "only blanks so far")
    def post(self, a, g, ret, p):
        l = g.l; ctx = a.ctx
        e = self.newlen(a, p); b = simp(sub(l.n, e))
        a.fact(And(le(e, l.n)), "not longer than before")
        str_is(a, l, p, e, lambda k: l.arr.get(ctx, simp(add(k, b))), "the text is a suffix of the old text")
        k = ctx.fresh("k")
        a.fact(Implies(And(le(0, k), lt(k, b)), blank(l.arr.get(ctx, k))), "only leading blanks are removed")
        a.fact(Or(eq(e, 0), Not(blank(l.arr.get(ctx, b)))), "no leading blank is left")
        self.same(a, g)

@register
class StrEnd(Contract):
    fn = "cee_str_end"; props = ("C12",); nocall = True
    def pre(self, a, p): return G(l=str_own(a, p), s=sect(a))
    def post(self, a, g, ret, p):
        a.fact(eq(ret, add(p, g.l.n)), "the end of the text"); keep_str(a, g.l, "nothing changes")
        a.map_is("SECT", g.s.fields, g.s.dom)

@register
class StrNcat(Contract):
    fn = "cee_str_ncat"; props = ("C12",); nocall = True
    def pre(self, a, p, s, n): return G()
    def post(self, a, g, ret, p, s, n): a.fact(eq(ret, 0), "not implemented: NULL")

# ------------------------------------------------------------------------------------------------ substring replacement (C13)
class Repl(Contract):
    """the result buffer is filled from left to right"""
    props = ("C13",); nocall = True
    def buf(self, a, g, base, size, upto, f, what):
        """bytes before upto are f"""
        ctx = a.ctx
        cv = a.chunk(base, size, "result", free=True)
        arr = cv.seg(0, 1, size, CH, name="out")
        a.fact(And(le(0, upto), lt(upto, size)), "position within the result")
        a.forall([arr], lambda k: Implies(And(le(0, k), lt(k, upto)), eq(arr.get(ctx, k), f(k))), what)
        return arr
    def outbuf(self, a, ret):
        ctx = a.ctx
        r = ctx.find(simp(ret)) or ctx.find_sem(ret)
        if r is None or cval(simp(r[1])) != 0: ctx.fail("a fresh buffer is returned", kind="own")
        ch = r[0]
        if ch.kind != "heap" or not ch.free: ctx.fail("the result is a block of its own", kind="own")
        cv = a.chunk(ret, None, "result")
        return ch, cv.seg(0, 1, ch.size, CH)

@register
class ReplAt(Repl):
    fn = "str_replace_at_offset"
    loops = {("str_replace_at_offset", 0): "head", ("str_replace_at_offset", 1): "mid", ("str_replace_at_offset", 2): "tail"}
    def pre(self, a, s, off, ln, nw):
        S, n = text_in(a, s, "str"); N, m = text_in(a, nw, "new")
        a.fact(le(add(off, ln), n), "the replaced part lies in the text")
        return G(S=S, n=n, N=N, m=m, off=off, ln=ln, size=simp(add(add(sub(n, ln), m), 1)))
    def f(self, a, g):
        ctx = a.ctx
        def f(k):
            if a.ctx.valid(lt(k, g.off)): return g.S.get(ctx, k)
            return If(lt(k, g.off), g.S.get(ctx, k), If(lt(k, add(g.off, g.m)), g.N.get(ctx, simp(sub(k, g.off))), g.S.get(ctx, simp(add(sub(k, g.m), g.ln)))))
        return f
    def head(self, a, L):
        g = L.g; i = L.v("i"); a.fact(And(le(0, i), le(i, g.off)), "i up to the offset")
        self.buf(a, g, L.v("new_str"), g.size, i, self.f(a, g), "written so far")
    def mid(self, a, L):
        g = L.g; d = L.v("i_dest"); a.fact(And(le(0, d), le(d, g.m)), "within the new text")
        self.buf(a, g, L.v("new_str"), g.size, simp(add(g.off, d)), self.f(a, g), "written so far")
    def tail(self, a, L):
        g = L.g; d = L.v("i_dest"); i = L.v("i")
        a.fact(And(le(add(g.off, g.ln), i), le(i, g.n), eq(sub(d, g.m), sub(i, g.ln))), "source and target positions correspond")
        self.buf(a, g, L.v("new_str"), g.size, d, self.f(a, g), "written so far")
    def post(self, a, g, ret, *r):
        ctx = a.ctx
        ch, arr = self.outbuf(a, ret)
        e = simp(sub(g.size, 1))
        a.fact(le(g.size, ch.size), "the result has room for its text")
        a.fact(eq(arr.get(ctx, e), 0), "the result is terminated")
        k = ctx.fresh("k")
        a.fact(Implies(And(le(0, k), lt(k, e)), eq(arr.get(ctx, k), self.f(a, g)(k))), "the result is the text with the part replaced")

class Scanner(Repl):
    """Ghost description of the left-to-right replacement of a text S of n bytes: B[i]: the scan stops at input
    position i; D[i]: output position then. match(i) gives (matched, width of the old text, new text, its length)."""
    boundable = False
    def ghosts(self, a, g):
        ctx = a.ctx
        g.B = BBase(ctx, "B"); g.D = Base(ctx, "D", 8, False, False)
        ctx.assume(And(g.B.get(ctx, 0), eq(g.D.get(ctx, 0), 0)))
    def step(self, a, g, i):
        """the definition of B and D at i (a place where the scan stops)"""
        ctx = a.ctx
        m, ol, N, nl = self.match(a, g, i)
        B, D = g.B, g.D
        at = And(B.get(ctx, i), lt(i, g.n))
        j, d = simp(add(i, ol)), simp(add(D.get(ctx, i), nl))
        ctx.assume(Implies(And(at, m), And(B.get(ctx, j), eq(D.get(ctx, j), d))))
        ctx.addfact([B], lambda k: Implies(And(at, m, lt(i, k), lt(k, j)), Not(B.get(ctx, k))))
        i1 = simp(add(i, 1))
        ctx.assume(Implies(And(at, Not(m)), And(B.get(ctx, i1), eq(D.get(ctx, i1), add(D.get(ctx, i), 1)))))
        return m, ol, N, nl
    def written(self, a, g, arr, upto, label):
        """everything scanned before upto has been written"""
        ctx = a.ctx
        def stmt(k, j):
            m, ol, N, nl = self.match(a, g, k)
            at = And(le(0, k), lt(k, upto), lt(k, g.n), g.B.get(ctx, k)); d = g.D.get(ctx, k)
            return [Implies(And(at, Not(m)), eq(arr.get(ctx, d), g.S.get(ctx, k))),
                    Implies(And(at, m, le(0, j), lt(j, nl)), eq(arr.get(ctx, simp(add(d, j))), N(j)))]
        for c in stmt(g.K, g.J): a.fact(c, label)

@register
class ReplAll(Scanner):
    """M[i]: the old text occurs at i; W[i]: a position where it differs otherwise"""
    fn = "str_replace_all"; loops = {("str_replace_all", 0): "outer", ("str_replace_all", 1): "inner"}
    def pre(self, a, s, old, new):
        ctx = a.ctx
        S, n = text_in(a, s, "str"); O, ol = text_in(a, old, "old"); N, nl = text_in(a, new, "new")
        g = G(S=S, n=n, O=O, ol=ol, N=N, nl=nl)
        a.fact(gt(ol, 0), "the old text is not empty")
        g.q = T(nl) / T(ol)
        a.fact(And(ge(g.q, 0), le(g.q, nl), lt(add(mul(n, g.q), n), SZ - 1), ge(mul(n, g.q), 0)), "the largest possible result is below 2^31")
        ctx.assume(And(le(mul(ol, g.q), nl), lt(nl, add(mul(ol, g.q), ol))))      # definition of the quotient
        g.M = BBase(ctx, "M"); g.W = a.array("W", U64)
        g.K = ctx.fresh("K", 0, SZ); g.J = ctx.fresh("J", 0, SZ)
        self.ghosts(a, g)
        return g
    def match(self, a, g, i):
        return g.M.get(a.ctx, i), g.ol, (lambda j: g.N.get(a.ctx, j)), g.nl
    def define(self, a, g, i):
        """M at i"""
        ctx = a.ctx; M = g.M.get(ctx, i)
        def agree(k): return Implies(And(M, le(0, k), lt(k, g.ol)), eq(g.S.get(ctx, simp(add(i, k))), g.O.get(ctx, k)))
        for k in list(ctx.diffs): ctx.assume(agree(k))
        ctx.assume(agree(simp(sub(g.n, i))))
        w = g.W.get(ctx, i)
        ctx.assume(Implies(Not(M), And(lt(w, g.ol), ne(g.S.get(ctx, simp(add(i, w))), g.O.get(ctx, w)))))
    def at(self, a, g, i, d, base):
        ctx = a.ctx; q = g.q
        a.fact(And(le(0, i), le(i, g.n), g.B.get(ctx, i), eq(d, g.D.get(ctx, i))), "the scan stops here, the output position is the specified one")
        a.fact(And(le(0, d), le(d, add(mul(i, q), i))), "the output so far fits the ratio")
        g.i, g.d = i, d
        if a.produce:
            prod_nonneg(ctx, sub(g.n, i), q)
    def out(self, a, g, base, upto, dup):
        ctx = a.ctx
        size = g.size
        cv = a.chunk(base, size, "result", free=True)
        arr = cv.seg(0, 1, size, CH, name="out")
        d = g.D.get(ctx, g.K)
        a.fact(Implies(And(lt(g.K, upto), g.B.get(ctx, g.K)), le(add(d, If(g.M.get(ctx, g.K), g.nl, 1)), dup)), "earlier output lies before")
        self.written(a, g, arr, upto, "everything scanned so far has been replaced or copied")
        return arr
    def outer(self, a, L):
        g = L.g; ctx = a.ctx; i, d = L.v("i_src"), L.v("i_dest")
        g.size = simp(add(add(mul(g.n, g.q), g.n), 1))
        if not a.produce and not L.entry: self.define(a, g, g.i); self.step(a, g, g.i)
        self.at(a, g, i, d, None)
        self.out(a, g, L.v("new_str"), i, d)
    def inner(self, a, L):
        g = L.g; ctx = a.ctx; k = L.v("n"); i, d = L.v("i_src"), L.v("i_dest")
        a.fact(And(le(0, k), le(k, g.nl)), "within the new text")
        arr = self.out(a, g, L.v("new_str"), i, d)
        a.forall([arr], lambda t: Implies(And(le(d, t), lt(t, add(d, k))), eq(arr.get(ctx, t), g.N.get(ctx, simp(sub(t, d))))), "the new text so far")
        if a.produce: prod_nonneg(ctx, sub(sub(g.n, i), g.ol), g.q, "the old text lies within the text")
    def post(self, a, g, ret, *r):
        ctx = a.ctx
        ch, arr = self.outbuf(a, ret)
        e = g.D.get(ctx, g.n)
        a.fact(And(g.B.get(ctx, g.n), lt(e, ch.size)), "the result has room for its text")
        a.fact(eq(arr.get(ctx, e), 0), "the result is terminated")
        self.written(a, g, arr, g.n, "every occurrence is replaced, everything else copied")

W32 = 1 << 32
@register
class ReplAllExt(Scanner):
    """pairs x: O[x] -> text OT[x*2^32 ...] of OL[x] bytes, N[x] likewise; C[i*2^32+x]: pair x occurs at i;
    X[i]: the first pair that does (np if none)"""
    fn = "str_replace_all_ext"; cost = 9; budget = 400
    loops = {("str_replace_all_ext", 0): "args", ("str_replace_all_ext", 1): "outer", ("str_replace_all_ext", 2): "find", ("str_replace_all_ext", 3): "inner"}
    def pre(self, a, s, n, outp, np, v):
        ctx = a.ctx
        g = G(n=n, np=np, outp=outp)
        a.fact(And(le(n, SZ - 1), le(0, np), lt(np, 1 << 20)), "sizes in range")
        g.S = BaseZ = None
        if a.branch(gt(n, 0)):
            cv = a.chunk(s, n, "str", ro=True); g.S = cv.seg(0, 1, n, CH, name="str")
        g.small = a.branch(le(np, 16))
        if not a.branch(eq(outp, 0)): a.chunk(outp, 8, "out_size"); g.out = True
        else: g.out = False
        g.O, g.N = a.array("O"), a.array("N"); g.OL, g.NL = a.array("OL"), a.array("NL")
        g.OT, g.NT = a.array("OT", CH), a.array("NT", CH)
        g.MX = ctx.fresh("maxnew", 0, SZ - 2)
        ctx.assume(And(lt(add(mul(n, g.MX), n), SZ - 1), ge(mul(n, g.MX), 0)))
        ctx.addfact([g.OL], lambda x: Implies(And(le(0, x), lt(x, np)), And(le(1, g.OL.get(ctx, x)), lt(g.OL.get(ctx, x), SZ))))
        ctx.addfact([g.NL], lambda x: Implies(And(le(0, x), lt(x, np)), And(le(0, g.NL.get(ctx, x)), le(g.NL.get(ctx, x), g.MX), lt(g.NL.get(ctx, x), SZ))))
        g.C = BBase(ctx, "C"); g.WW = a.array("WW"); g.X = a.array("X")
        g.K = ctx.fresh("K", 0, SZ); g.J = ctx.fresh("J", 0, SZ)
        self.ghosts(a, g)
        def get(ex, pos, ty):
            ctx.prove(And(le(0, pos), lt(pos, mul(2, np))), ex.lab("va_arg within the arguments given"), fatal=True, kind="ub")
            for arr, k in ((g.O, 0), (g.N, 1)):
                q = divexact(simp(sub(pos, k)), 2)
                if q is not None: return arr.get(ctx, simp(q))
            return None
        v.get = get
        def hook(ex, addr, hint):
            at, c0 = lin(addr)
            for t, q in at.values():
                if q != 1 or not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_SELECT: continue
                for arr, ln, tx, nm in ((g.O, g.OL, g.OT, "old text"), (g.N, g.NL, g.NT, "new text")):
                    x = t.arg(1)
                    if t.arg(0).eq(arr.A) or (t.arg(0).get_id() in g.__dict__.get("pb", ()) and ctx.valid(eq(t, arr.get(ctx, x)))):
                        self.text(a, t, ln.get(ctx, x), tx, mul(x, W32), nm); return True
            return False
        a.ex.auto.append(hook)
        return g
    def text(self, a, p, n, tx, o, nm):
        ctx = a.ctx
        ch = Chunk(p, simp(add(n, 1)), "static", False, nm, init=True); ch.ro = True; ch.shared = True
        ctx.addchunk(ch)
        arr = Base(ctx, nm.replace(" ", "_"), 1, True).copyin(0, tx, o, simp(add(n, 1)))
        ch.segs.append(Seg(0, 1, simp(add(n, 1)), {0: (1, arr)}))
        ctx.assume(eq(arr.get(ctx, n), 0)); ch.nuls.append(n)
        ctx.addfact([tx], lambda t: Implies(And(le(o, t), lt(t, add(o, n))), ne(tx.get(ctx, t), 0)))
        ctx.__dict__.setdefault("_strlen", {})[("strlen", id(arr), 0)] = n; ctx.keep.append((arr, 0))
    def tx(self, a, t, x, k): return t.get(a.ctx, simp(add(mul(x, W32), k)))
    # -- definitions
    def ival(self, g, i, x): return simp(add(mul(i, W32), x))
    def defpair(self, a, g, i, x):
        """C at (i, x)"""
        ctx = a.ctx
        if g.S is None: return
        c = g.C.get(ctx, self.ival(g, i, x)); ol = g.OL.get(ctx, x)
        fits = le(add(i, ol), g.n)
        ctx.assume(Implies(c, fits))
        for k in list(ctx.diffs):
            ctx.assume(Implies(And(c, le(0, k), lt(k, ol)), eq(g.S.get(ctx, simp(add(i, k))), self.tx(a, g.OT, x, k))))
        w = g.WW.get(ctx, self.ival(g, i, x))
        ctx.assume(Implies(And(Not(c), fits), And(lt(w, ol), ne(g.S.get(ctx, simp(add(i, w))), self.tx(a, g.OT, x, w)))))
    def defx(self, a, g, i):
        ctx = a.ctx; X = g.X.get(ctx, i)
        ctx.assume(And(le(0, X), le(X, g.np)))
        ctx.assume(Implies(lt(X, g.np), g.C.get(ctx, self.ival(g, i, X))))
        lo = mul(i, W32)
        ctx.addfact([g.C], lambda t: Implies(And(le(lo, t), lt(t, add(lo, X))), Not(g.C.get(ctx, t))))
    def match(self, a, g, i):
        ctx = a.ctx; X = g.X.get(ctx, i)
        return lt(X, g.np), g.OL.get(ctx, X), (lambda j: self.tx(a, g.NT, X, j)), g.NL.get(ctx, X)
    def written(self, a, g, arr, upto, label):
        if g.S is None: return
        return Scanner.written(self, a, g, arr, upto, label)
    # -- loops
    def pairs(self, a, L, upto):
        g = L.g; ctx = a.ctx; p = L.v("pairs")
        if not hasattr(g, "small"): g.small = a.branch(le(g.np, 16))
        small = g.small
        cv = a.chunk(p, simp(mul(32, g.np)), "pairs", kind="local" if small else "heap")
        if not a.produce and not cv.ch.segs and upto is not None and cval(upto) == 0: return cv
        f = []
        for fo, arr in ((0, g.O), (8, g.N), (16, g.OL), (24, g.NL)):
            x = cv.seg(0, 32, g.np, U64, fo=fo, name="pair%d" % fo)
            f.append(x)
            if fo < 16 and a.produce: g.__dict__.setdefault("pb", set()).add(x.A.get_id())
            a.forall([x], (lambda x, arr: lambda k: Implies(And(le(0, k), lt(k, upto)), eq(x.get(ctx, k), arr.get(ctx, k))))(x, arr), "the pairs read so far")
        return cv
    def args(self, a, L):
        g = L.g; ctx = a.ctx; i = L.v("i")
        a.fact(And(le(0, i), le(i, g.np)), "i within the pairs")
        for va in a.ex.fr.va.values():
            if va.pack is not None:
                if a.produce: va.pos = simp(mul(2, i))
                else: a.fact(eq(va.pos, mul(2, i)), "two arguments are read for each pair")
        self.pairs(a, L, i)
        mn, mx = L.v("min_old_len"), L.v("max_new_len")
        self.minmax(a, g, mn, mx, i)
        if a.produce:
            if g.out: pass
            q = T(mx) / T(mn)
            ctx.assume(And(ge(q, 0), le(q, mx), le(mul(mn, q), mx), lt(mx, add(mul(mn, q), mn))))     # definition of the quotient
            prod_nonneg(ctx, g.n, sub(g.MX, q)); prod_nonneg(ctx, g.n, q)
            g.q, g.mn, g.mx = q, mn, mx
    def minmax(self, a, g, mn, mx, i):
        ctx = a.ctx
        a.fact(And(le(1, mn), le(mn, 1000), le(0, mx), le(mx, g.MX)), "bounds of the lengths")
        a.forall([g.OL], lambda k: Implies(And(le(0, k), lt(k, i)), ge(g.OL.get(ctx, k), mn)), "no old text is shorter")
        a.forall([g.NL], lambda k: Implies(And(le(0, k), lt(k, i)), le(g.NL.get(ctx, k), mx)), "no new text is longer")
    def out(self, a, g, base, upto, dup):
        ctx = a.ctx
        cv = a.chunk(base, g.size, "result", free=True)
        arr = cv.seg(0, 1, g.size, CH, name="out")
        d = g.D.get(ctx, g.K); m, ol, N, nl = self.match(a, g, g.K)
        a.fact(Implies(And(lt(g.K, upto), g.B.get(ctx, g.K)), le(add(d, If(m, nl, 1)), dup)), "earlier output lies before")
        self.written(a, g, arr, upto, "everything scanned so far has been replaced or copied")
        return arr
    def outer(self, a, L):
        g = L.g; ctx = a.ctx; i, d = L.v("i_src"), L.v("i_dest"); q = g.q
        g.size = simp(add(add(mul(g.n, q), g.n), 1))
        if not a.produce and not L.entry:
            self.defx(a, g, g.i); X = g.X.get(ctx, g.i); self.defpair(a, g, g.i, X)
            if hasattr(g, "x"): self.defpair(a, g, g.i, g.x)
            self.step(a, g, g.i)
        if a.produce: g.x = 0
        a.fact(And(le(0, i), le(i, g.n), g.B.get(ctx, i), eq(d, g.D.get(ctx, i))), "the scan stops here, the output position is the specified one")
        a.fact(And(le(0, d), le(d, add(mul(i, q), i))), "the output so far fits the ratio")
        if a.produce: g.i, g.d = i, d; prod_nonneg(ctx, sub(g.n, i), q)
        self.pairs(a, L, g.np)
        self.out(a, g, L.v("new_str"), i, d)
    def find(self, a, L):
        g = L.g; ctx = a.ctx; x = L.v("x")
        a.fact(And(le(0, x), le(x, g.np)), "x within the pairs")
        L.let(a, "used_pair", 0, "no pair found yet")
        if not a.produce and not L.entry: self.defpair(a, g, g.i, g.x)
        lo = mul(g.i, W32)
        a.forall([g.C], lambda t: Implies(And(le(lo, t), lt(t, add(lo, x))), Not(g.C.get(ctx, t))), "no earlier pair occurs here")
        if a.produce: g.x = x
    def inner(self, a, L):
        g = L.g; ctx = a.ctx; k = L.v("n"); i, d = L.v("i_src"), L.v("i_dest"); x = g.x
        nl = g.NL.get(ctx, x); ol = g.OL.get(ctx, x)
        a.fact(And(le(0, k), le(k, nl)), "within the new text")
        arr = self.out(a, g, L.v("new_str"), i, d)
        a.forall([arr], lambda t: Implies(And(le(d, t), lt(t, add(d, k))), eq(arr.get(ctx, t), self.tx(a, g.NT, x, simp(sub(t, d))))), "the new text so far")
        if a.produce:
            prod_nonneg(ctx, sub(sub(g.n, i), ol), g.q, "the old text lies within the text")
            prod_nonneg(ctx, sub(ol, g.mn), add(g.q, 1))
    def post(self, a, g, ret, s, n, outp, np, v):
        ctx = a.ctx
        ch, arr = self.outbuf(a, ret)
        e = g.D.get(ctx, g.n)
        a.fact(And(g.B.get(ctx, g.n), lt(e, ch.size)), "the result has room for its text")
        a.fact(eq(arr.get(ctx, e), 0), "the result is terminated")
        self.written(a, g, arr, g.n, "every occurrence is replaced, everything else copied")
        if g.out:
            oc = a.chunk(outp, 8, "out_size"); a.fact(eq(oc.get(0, U64), e), "the length of the result is reported")
