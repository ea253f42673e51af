"""cee-json/snprint.c (C18): what each part of the printed text is, and that measuring (no buffer) and printing agree."""
from .base import *
from .json import esclen, escbyte
from .str import *

TABS = 1 << 20
def offs(a, offp, g=None):
    """the running offset"""
    if a.produce: cv = a.chunk(offp, 8, "offset", **({} if g is None else dict(kind=g.ok))); return cv
    return a.chunk(offp, 8, "offset")
class Emit(Contract):
    """writes exactly the specified bytes at the offset (if there is a buffer) and advances the offset by their number"""
    props = ("C18",); boundable = False
    limit = 1 << 40
    def begin(self, a, offp, buf, width, room=None):
        ctx = a.ctx
        cv = offs(a, offp); o = cv.get(0, U64); g = G(o=o, ok=cv.ch.kind, buf=buf, W=width, R=width if room is None else room)
        a.fact(le(o, self.limit), "the offset is in range")
        g.out = a.branch(ne(buf, 0))
        if g.out:
            if a.produce:
                g.cap = ctx.fresh("cap", 0, 1 << 47)
                bc = a.chunk(buf, g.cap, "buf"); g.arr = bc.seg(0, 1, g.cap, CH, name="buf"); g.bk = bc.ch.kind
                ctx.assume(le(add(o, g.R), g.cap))
            else:
                ch, s, i = a.ex.bytes_at(buf, "buffer"); a.fact(eq(i, 0)); a.fact(le(add(o, g.R), s.count), "the buffer has room for what was measured")
                g.cap, g.arr, g.bk, g.ch = s.count, s.fields[0][1], ch.kind, ch
                if ch.ro: ctx.fail("the buffer is outside the frame here", kind="frame")
                ctx.heap.remove(ch)
        return g
    def end(self, a, g, offp, byte, what):
        """byte(k): the k-th byte emitted"""
        ctx = a.ctx
        cv = offs(a, offp, g); cv.set(0, U64, simp(add(g.o, g.W)), what + ": the offset advances by the number of bytes")
        if not g.out: return
        if a.produce:
            bc = a.chunk(g.buf, g.cap, "buf", kind=g.bk); arr = Base(ctx, "buf", 1, True); old = g.arr
            W, o, R = g.W, g.o, g.R
            ctx.addfact([arr] + ctx.arr_bases(old), lambda t: Implies(Not(And(le(add(o, W), t), lt(t, add(o, R)))), eq(arr.get(ctx, t), If(And(le(o, t), lt(t, add(o, W))), byte(simp(sub(t, o))), old.get(ctx, t)))))
            bc.setseg(0, 1, g.cap, arr, CH); return
        bc = a.chunk(g.buf, g.cap, "buf"); arr = bc.seg(0, 1, g.cap, CH)
        k = ctx.fresh("k")
        a.fact(Implies(And(le(0, k), lt(k, g.W)), eq(arr.get(ctx, simp(add(g.o, k))), byte(k))), what + ": exactly these bytes")
        a.fact(Implies(And(le(0, k), lt(k, g.cap), Not(And(le(g.o, k), lt(k, add(g.o, g.R))))), eq(arr.get(ctx, k), g.arr.get(ctx, k))), what + ": nothing else is written")
    def given(self, a, g):
        """the buffer as it was"""

def counter(a, p):
    cv = a.rec(p, "counter", None, "counter", ro=True)
    t = cv.f("tabs"); a.fact(lt(t, TABS), "fewer tabs than 2^20")
    return t

@register
class Pad(Emit):
    fn = "pad"; boundable = True; limit = 1 << 41; loops = {("pad", 0): "loop"}
    def pre(self, a, offp, buf, cnt, f):
        t = counter(a, cnt)
        w = t if a.branch(ne(f, 0)) else 0
        return self.begin(a, offp, buf, w)
    def loop(self, a, L):
        g = L.g; ctx = a.ctx; i = L.v("i")
        a.fact(And(le(0, i), le(i, g.W)), "within the tabs")
        if a.produce:
            bc = a.chunk(g.buf, g.cap, "buf", kind=g.bk); arr = bc.seg(0, 1, g.cap, CH, name="buf")
        else: bc = a.chunk(g.buf, g.cap, "buf"); arr = bc.seg(0, 1, g.cap, CH)
        bs = [arr] if a.produce else []
        a.forall([arr, g.arr], lambda t: eq(arr.get(ctx, t), If(And(le(g.o, t), lt(t, add(g.o, i))), 9, g.arr.get(ctx, t))), "tabs so far")
    def post(self, a, g, ret, offp, buf, cnt, f): self.end(a, g, offp, lambda k: 9, "tabs")

@register
class Delimiter(Emit):
    """compact: the character itself; indented: tabs and line breaks around it
    (an opening bracket uses the room of its closing one's tabs as scratch: they are overwritten by what follows)"""
    fn = "delimiter"
    def pre(self, a, offp, buf, f, cnt, c):
        a.fact(Or(*[eq(c, ord(x)) for x in "[]{}:,"]), "a JSON delimiter")
        t = counter(a, cnt); tabs, tail, room = 0, [], None
        if not a.branch(ne(f, 0)): head, tabs, tail = [], 0, [c]
        elif a.branch(Or(eq(c, 91), eq(c, 123))): head, tail, room = [], [c, 10], If(lt(2, t), t, 2)
        elif a.branch(Or(eq(c, 93), eq(c, 125))): head, tabs, tail = [10], t, [c, 10]
        elif a.branch(eq(c, 58)): head, tail = [], [32, 58, 9]
        else: head, tail = [], [44, 10]
        w = simp(add(tabs, len(head) + len(tail)))
        def byte(k):
            r = 9
            for i, b in enumerate(head): r = If(eq(k, i), b, r)
            for i, b in enumerate(tail): r = If(eq(k, simp(add(tabs, len(head) + i))), b, r)
            return r
        g = self.begin(a, offp, buf, w, room); g.byte = byte
        return g
    def post(self, a, g, ret, offp, buf, f, cnt, c): self.end(a, g, offp, g.byte, "delimiter")

@register
class StrAppend(Emit):
    """a quote, the escape of every byte, a quote.  POS[k]: where the escape of byte k starts, the sum of the lengths before it"""
    fn = "str_append"; loops = {("str_append", 0): "loop"}; nocall = True; boundable = True
    def pre(self, a, out, offp, begin, n):
        ctx = a.ctx
        S = None
        a.fact(lt(n, SZ), "text below 2^31")
        if a.branch(gt(n, 0)): S = a.chunk(begin, n, "text", ro=True).seg(0, 1, n, CH, name="S")
        POS = Base(ctx, "POS", 8, False, False); ctx.assume(eq(POS.get(ctx, 0), 0))
        # a sum of terms between 1 and 6
        ctx.addfact([POS], lambda t: Implies(And(le(0, t), le(t, n)), And(le(t, POS.get(ctx, t)), le(POS.get(ctx, t), mul(6, t)), le(add(POS.get(ctx, t), sub(n, t)), POS.get(ctx, n)))))
        g = self.begin(a, offp, out, simp(add(2, POS.get(ctx, n))))
        g.S, g.POS, g.n, g.begin = S, POS, n, begin
        g.K = ctx.fresh("K", 0, SZ); g.J = ctx.fresh("J", 0, 6)
        if self.bounded and S is not None:     # the definition, as far as the unrolled loop goes
            for t in list(range(self.bounded + 1)) + [g.K]:
                ctx.assume(Implies(lt(t, n), eq(POS.get(ctx, simp(add(t, 1))), add(POS.get(ctx, t), esclen(S.get(ctx, t))))))
        return g
    def chars(self, a, g, arr, upto, label):
        """the escapes of the bytes before upto"""
        ctx = a.ctx
        if g.S is None: return
        c = g.S.get(ctx, g.K); p = g.POS.get(ctx, g.K)
        a.fact(Implies(And(lt(g.K, upto), lt(g.J, esclen(c))), And(le(add(p, esclen(c)), g.POS.get(ctx, upto)), eq(arr.get(ctx, simp(add(g.o, add(1, add(p, g.J))))), escbyte(c, g.J)))), label)
    def loop(self, a, L):
        g = L.g; ctx = a.ctx; POS = g.POS
        if a.produce: q, r = ctx.fresh("q"), ctx.fresh("r"); L.let(a, "i", simp(add(g.begin, q))); L.let(a, "last", simp(add(g.begin, r))); g.q = q
        else: q, r = simp(sub(L.v("i"), g.begin)), simp(sub(L.v("last"), g.begin))
        if a.produce and g.S is not None:
            ctx.assume(Implies(lt(q, g.n), eq(POS.get(ctx, simp(add(q, 1))), add(POS.get(ctx, q), esclen(g.S.get(ctx, q))))))     # definition
            ctx.assume(Implies(lt(g.K, g.n), eq(POS.get(ctx, simp(add(g.K, 1))), add(POS.get(ctx, g.K), esclen(g.S.get(ctx, g.K))))))
        a.fact(And(le(0, r), le(r, q), le(q, g.n)), "within the text")
        a.fact(eq(L.v("offset"), simp(add(g.o, add(1, POS.get(ctx, r))))), "the offset is where the bytes not yet copied go")
        a.fact(eq(POS.get(ctx, q), add(POS.get(ctx, r), sub(q, r))), "the bytes not yet copied stand for themselves")
        if g.S is not None:
            a.fact(Implies(And(le(r, g.K), lt(g.K, q)), And(eq(POS.get(ctx, g.K), add(POS.get(ctx, r), sub(g.K, r))), eq(esclen(g.S.get(ctx, g.K)), 1))), "each of them")
        try: at = L.addr("buf")
        except Annot: at = None
        if at is not None:
            lb = a.chunk(at, 8, "local buf", kind="local").seg(0, 1, 8, CH)
            for k, x in enumerate(b"\\u00"): a.fact(eq(lb.get(ctx, k), x), "the start of a numeric escape")
        if g.out:
            if a.produce: bc = a.chunk(g.buf, g.cap, "buf", kind=g.bk); arr = bc.seg(0, 1, g.cap, CH, name="buf")
            else: bc = a.chunk(g.buf, g.cap, "buf"); arr = bc.seg(0, 1, g.cap, CH)
            self.chars(a, g, arr, r, "escaped so far")
            a.fact(eq(arr.get(ctx, g.o), 34), "the opening quote")
            a.forall([arr, g.arr], lambda t: Implies(Or(lt(t, g.o), ge(t, add(g.o, g.W))), eq(arr.get(ctx, t), g.arr.get(ctx, t))), "nothing else is written")
    def post(self, a, g, ret, out, offp, begin, n):
        ctx = a.ctx
        cv = offs(a, offp, g); cv.set(0, U64, simp(add(g.o, g.W)), "the offset advances by the number of bytes")
        if not g.out: return
        bc = a.chunk(g.buf, g.cap, "buf"); arr = bc.seg(0, 1, g.cap, CH)
        a.fact(And(eq(arr.get(ctx, g.o), 34), eq(arr.get(ctx, simp(add(g.o, sub(g.W, 1)))), 34)), "quotes around it")
        self.chars(a, g, arr, n, "every byte is escaped")
        k = ctx.fresh("k")
        a.fact(Implies(And(le(0, k), lt(k, g.cap), Not(And(le(g.o, k), lt(k, add(g.o, g.W))))), eq(arr.get(ctx, k), g.arr.get(ctx, k))), "nothing else is written")

@register
class Asprint(Contract):
    """the text is printed into a block that was measured for it, and both are reported"""
    fn = "cee_json_asprint"; props = ("C18",); nocall = True
    views = {"cee_json_snprint": Ev("cee_json_snprint", make=lambda a, c, *r: a.ctx.assume(le(0, c.ret))), "cee_block_mk_nonzero": Ev("cee_block_mk_nonzero", nonnull=True), "cee_block_mk": Ev("cee_block_mk", nonnull=True)}
    def pre(self, a, st, bp, sp, j, f):
        a.chunk(bp, 8, "buf_p"); g = G(sz=not a.branch(eq(sp, 0)))
        if g.sz: a.chunk(sp, 8, "size_p")
        return g
    def post(self, a, g, ret, st, bp, sp, j, f):
        ctx = a.ctx; cs = calls(a); own = lambda s: ctx.fail(s, kind="own")
        if [c.fn[:10] for c in cs] != ["cee_json_s", "cee_block_", "cee_json_s"]: own("measure, allocate, print")
        m, b, p = cs
        for c, what in ((m, "measuring"), (p, "printing")): a.fact(And(eq(c.args[0], st), eq(c.args[3], j), eq(c.args[4], f)), what + ": this value in this format")
        a.fact(eq(m.args[1], 0), "the first pass only measures")
        a.fact(And(eq(b.args[0], st), ge(b.args[1], m.ret)), "the block belongs to the state and has the measured size")
        a.fact(eq(p.args[1], b.ret), "the text goes into the block")
        a.chunk(bp, 8, "buf_p").set(0, P, b.ret, "the block is reported")
        if g.sz: a.chunk(sp, 8, "size_p").set(0, U64, m.ret, "the measured size is reported")
        a.fact(eq(ret, p.ret), "the number of bytes printed is returned")
