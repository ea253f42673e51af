"""tokenizer.c: UTF-8 and string escapes (C15)."""
from .base import *
from .strview import View

ILLEGAL = 0xFFFFFFFF
def u8(c): return c & 0xff if isc(c) else If(lt(c, 0), add(c, 256), c)
def between(lo, c, hi): return And(le(lo, c), le(c, hi))
def scalar(v): return And(le(0, v), Or(le(v, 0xD7FF), between(0xE000, v, 0x10FFFF)))
def shr(v, k): return v >> k if isc(v) else T(v) / (1 << k)
def mod64(v): return v & 63 if isc(v) else T(v) % 64

def decode(b, avail):
    """the well-formed UTF-8 sequences (RFC 3629, section 4, UTF8-1..UTF8-4) as a list (condition, code, length);
    b(k): the k-th byte as 0..255, avail: bytes there are"""
    def tail(k): return between(0x80, b(k), 0xBF)
    def low(k): return sub(b(k), 0x80)
    c2 = lambda: add(mul(sub(b(0), 0xC0), 64), low(1))
    c3 = lambda: add(mul(sub(b(0), 0xE0), 4096), add(mul(low(1), 64), low(2)))
    c4 = lambda: add(mul(sub(b(0), 0xF0), 1 << 18), add(mul(low(1), 4096), add(mul(low(2), 64), low(3))))
    return [
        (lambda: And(ge(avail, 1), le(b(0), 0x7F)), lambda: b(0), 1),
        (lambda: And(ge(avail, 2), between(0xC2, b(0), 0xDF), tail(1)), c2, 2),
        (lambda: And(ge(avail, 3), Or(And(eq(b(0), 0xE0), between(0xA0, b(1), 0xBF)), And(eq(b(0), 0xED), between(0x80, b(1), 0x9F)),
                              And(Or(between(0xE1, b(0), 0xEC), between(0xEE, b(0), 0xEF)), tail(1))), tail(2)), c3, 3),
        (lambda: And(ge(avail, 4), Or(And(eq(b(0), 0xF0), between(0x90, b(1), 0xBF)), And(eq(b(0), 0xF4), between(0x80, b(1), 0x8F)),
                              And(between(0xF1, b(0), 0xF3), tail(1))), tail(2), tail(3)), c4, 4)]

def encode(v):
    """[(condition, bytes)] for a value up to 0x1FFFFF"""
    m = lambda x: add(mod64(x), 0x80)
    return [(le(v, 0x7F), [v]), (le(v, 0x7FF), [add(shr(v, 6), 0xC0), m(v)]),
            (le(v, 0xFFFF), [add(shr(v, 12), 0xE0), m(shr(v, 6)), m(v)]),
            (True, [add(shr(v, 18), 0xF0), m(shr(v, 12)), m(shr(v, 6)), m(v)])]

class Value(Contract):
    """a function of its argument alone"""
    props = ("C15",)
    def pre(self, a, *args): return G()
    def post(self, a, g, ret, *args): a.fact(eq(ret, self.f(a, *args)), "the value the argument determines")

@register
class UtfValid(Value):
    fn = "utf_valid"
    def f(self, a, v): return If(scalar(v), 1, 0)
@register
class IsTrail(Value):
    fn = "utf8_is_trail"
    def f(self, a, c): return If(between(0x80, u8(c), 0xBF), 1, 0)
@register
class TrailLength(Value):
    fn = "utf8_trail_length"
    def f(self, a, c): return If(le(c, 0x7F), 0, If(le(c, 0xC1), -1, If(le(c, 0xDF), 1, If(le(c, 0xEF), 2, If(le(c, 0xF4), 3, -1)))))
@register
class Width(Value):
    fn = "utf8_width"
    def f(self, a, v): return If(le(v, 0x7F), 1, If(le(v, 0x7FF), 2, If(le(v, 0xFFFF), 3, 4)))
@register
class FirstSurrogate(Value):
    fn = "utf16_is_first_surrogate"
    def f(self, a, x): return If(between(0xD800, x, 0xDBFF), 1, 0)
@register
class SecondSurrogate(Value):
    fn = "utf16_is_second_surrogate"
    def f(self, a, x): return If(between(0xDC00, x, 0xDFFF), 1, 0)
@register
class Combine(Contract):
    fn = "utf16_combine_surrogate"; props = ("C15",)
    def pre(self, a, x, y):
        a.fact(And(between(0xD800, x, 0xDBFF), between(0xDC00, y, 0xDFFF)), "a surrogate pair"); return G()
    def post(self, a, g, ret, x, y): a.fact(eq(ret, add(add(mul(sub(x, 0xD800), 1024), sub(y, 0xDC00)), 0x10000)), "the code point the pair denotes")

@register
class Encode(Contract):
    fn = "utf8_encode"; props = ("C15",); nocall = True
    def pre(self, a, v, out):
        a.fact(le(v, 0x1FFFFF), "a value of at most 21 bits")
        a.rec(out, "utf8_seq"); return G()
    def post(self, a, g, ret, v, out):
        ctx = a.ctx; cv = a.rec(out, "utf8_seq")
        for c, bs in encode(v):
            if not a.branch(c): continue
            a.fact(eq(cv.f("len"), len(bs)), "as many bytes as the value needs")
            got = [u8(cv.get(k, CH)) for k in range(len(bs))]
            for k, b in enumerate(bs): a.fact(eq(got[k], b), "byte %d of the encoding" % k)
            # lemma: encoding a scalar value and decoding it gives the value back
            ok, code, n = decode(lambda k: got[k], len(bs))[len(bs) - 1]
            a.fact(Iff(scalar(v), ok()), "well-formed exactly for scalar values")
            a.fact(Implies(scalar(v), eq(code(), v)), "decodes to the value")
            return

@register
class Next(Contract):
    fn = "next"; props = ("C15",)
    def pre(self, a, pp, e, html):
        cv = a.chunk(pp, 8, "position"); p = cv.get(0, P)
        a.fact(And(le(0, p), le(p, 1 << 48), le(p, e)), "the position is not past the end")
        return G(p=p, kind=cv.ch.kind, v=View(a, p, simp(sub(e, p))))
    def post(self, a, g, ret, pp, e, html):
        ctx = a.ctx; v = g.v; p = g.p
        q = a.fresh("q", P) if a.produce else None
        cv = a.chunk(pp, 8, "position", kind=g.kind)
        if a.produce: cv.set(0, P, q)
        q = cv.get(0, P)
        a.fact(And(le(p, q), le(q, e)), "the position stays within the text")
        if v.empty:
            a.fact(And(eq(ret, ILLEGAL), eq(q, p)), "nothing to decode"); return
        for ok, code, n in decode(lambda k: u8(v.get(ctx, k)), v.n):
            if a.branch(ok()):
                c = code()
                bad = And(ne(html, 0), Or(And(lt(c, 0x20), ne(c, 9), ne(c, 10), ne(c, 13)), between(0x7F, c, 0x9F)))
                a.fact(Implies(Not(bad), eq(ret, c)), "the code point of the well-formed sequence")
                a.fact(Implies(bad, eq(ret, ILLEGAL)), "control characters are refused in html mode")
                a.fact(eq(q, add(p, n)), "exactly the sequence is consumed")
                return
        a.fact(And(eq(ret, ILLEGAL), lt(p, q)), "an ill-formed sequence is refused")

@register
class Validate(Contract):
    """W[k]: the text from position k on is a sequence of well-formed sequences"""
    fn = "utf8_validate"; props = ("C15",); loops = {("utf8_validate", 0): "scan"}
    def pre(self, a, p, e):
        a.fact(And(le(0, p), le(p, e), le(e, 1 << 48)), "a text")
        n = simp(sub(e, p)); v = View(a, p, n)
        g = G(p=p, e=e, n=n, v=v, W=BBase(a.ctx, "W"))
        return g
    def define(self, a, g, k):
        """W at k"""
        ctx = a.ctx; W = g.W
        if a.branch(eq(k, g.n)): ctx.assume(W.get(ctx, k)); return
        for ok, code, n in decode(lambda j: u8(g.v.get(ctx, simp(add(k, j)))), simp(sub(g.n, k))):
            if a.branch(ok()): ctx.assume(Iff(W.get(ctx, k), W.get(ctx, simp(add(k, n))))); return
        ctx.assume(Not(W.get(ctx, k)))
    def scan(self, a, L):
        g = L.g; ctx = a.ctx
        cv = a.chunk(L.addr("p"), 8, "p", kind="local")
        if a.produce: cv.set(0, P, simp(add(g.p, a.ctx.fresh("k", 0, 1 << 46))))
        p = cv.get(0, P); k = simp(sub(p, g.p))
        a.fact(And(le(g.p, p), le(p, g.e)), "the position stays within the text")
        a.fact(Iff(g.W.get(ctx, 0), g.W.get(ctx, k)), "what is before is well-formed")
        if a.produce: self.define(a, g, k)
    def post(self, a, g, ret, p, e):
        ctx = a.ctx
        if a.produce:
            ctx.ghosts["utf8"] = ctx.ghosts.get("utf8", []) + [(p, g.n, g.v.raw, g.v.off, g.v.empty, ret)]
            a.fact(between(0, ret, 1)); return
        a.fact(eq(ret, If(g.W.get(ctx, 0), 1, 0)), "true exactly for well-formed texts")

def xdigit(c): return Or(between(48, c, 57), between(65, c, 70), between(97, c, 102))
def xvalue(c): return If(le(c, 57), sub(c, 48), If(le(c, 70), sub(c, 55), sub(c, 87)))
def hex4(d): return add(add(mul(xvalue(d[0]), 4096), mul(xvalue(d[1]), 256)), add(mul(xvalue(d[2]), 16), xvalue(d[3])))

@register
class Read4(Contract):
    fn = "read_4_digits"; props = ("C15",)
    def pre(self, a, pp, e, x):
        cv = a.chunk(pp, 8, "position"); p = cv.get(0, P); cx = a.chunk(x, 2, "digits")
        a.fact(And(le(0, p), le(p, 1 << 48), le(p, e)), "the position is not past the end")
        return G(p=p, kind=cv.ch.kind, xkind=cx.ch.kind, v=View(a, p, simp(sub(e, p))))
    def post(self, a, g, ret, pp, e, x):
        ctx = a.ctx; v = g.v; p = g.p
        cx = a.chunk(x, 2, "digits", kind=g.xkind); cv = a.chunk(pp, 8, "position", kind=g.kind)
        def bad():
            a.fact(eq(ret, 0), "not four hexadecimal digits"); cv.set(0, P, p, "nothing is consumed")
        if v.empty or not a.branch(ge(v.n, 4)): return bad()
        d = [v.get(ctx, k) for k in range(4)]
        if not a.branch(And(*[xdigit(c) for c in d])): return bad()
        a.fact(eq(ret, 1), "four hexadecimal digits")
        cv.set(0, P, simp(add(p, 4)), "they are consumed")
        cx.set(0, U16, simp(hex4(d)), "their value")

@register
class Append(Contract):
    fn = "append"; props = ("C15",); nocall = True
    def pre(self, a, v, d):
        ctx = a.ctx; a.fact(le(v, 0x1FFFFF))
        n = ctx.fresh("room", 4, 1 << 40); k = ctx.fresh("at", 0, 1 << 40); a.fact(le(add(k, 4), n))
        b = ctx.fresh("out"); a.fact(eq(d, add(b, k)))
        cv = a.chunk(d, n, "out"); return G(d=d, n=n, arr=cv.seg(0, 1, n, CH))
    def post(self, a, g, ret, v, d):
        ctx = a.ctx; cv = a.chunk(d, g.n, "out"); arr = cv.seg(0, 1, g.n, CH)
        for c, bs in encode(v):
            if not a.branch(c): continue
            a.fact(eq(ret, add(d, len(bs))), "the position after the encoding")
            for k, b in enumerate(bs): a.fact(eq(u8(arr.get(ctx, k)), b), "byte %d of the encoding" % k)
            k = ctx.fresh("k"); a.fact(Implies(And(le(len(bs), k), lt(k, g.n)), eq(arr.get(ctx, k), g.arr.get(ctx, k))), "nothing else is written")
            return

ESC = {ord('"'): 34, ord("\\"): 92, ord("/"): 47, ord("b"): 8, ord("f"): 12, ord("n"): 10, ord("r"): 13, ord("t"): 9}

@register
class Unescape(Contract):
    """The scan of the body, defined position by position: R[i]: a unit starts at i; H[i]: the high surrogate waiting
    for its partner (0: none); O[i]: bytes denoted by what is before; D: the text denoted; bad: the body is no JSON string."""
    fn = "json_string_unescape"; props = ("C15",); loops = {("json_string_unescape", 0): "scan"}; cost = 5; boundable = False
    def pre(self, a, outp, lenp, p, n):
        ctx = a.ctx
        a.fact(lt(n, SZ), "a body below 2^31 bytes")
        a.fact(And(le(0, p), le(p, 1 << 49)), "an address")
        c1 = a.chunk(outp, 8, "output"); c2 = a.chunk(lenp, 8, "output length")
        g = G(p=p, n=n, k1=c1.ch.kind, k2=c2.ch.kind, v=View(a, p, n, "body"))
        if a.produce:
            g.R = BBase(ctx, "R"); g.H = Base(ctx, "H", 8, False, False); g.O = Base(ctx, "O", 8, False, False); g.D = Base(ctx, "D", 1, True)
            g.bad = z3.Bool(ctx.freshname("bad")); ctx.keep.append(g.bad)
            g.fb = ctx.fresh("first_escape", 0, SZ)      # where the first backslash is (n: none)
            ctx.assume(And(le(g.fb, n), g.R.get(ctx, 0), eq(g.H.get(ctx, 0), 0), eq(g.O.get(ctx, 0), 0)))
        return g
    def unit(self, a, g, i):
        """the definition at i, a place where a unit starts"""
        ctx = a.ctx; h = g.H.get(ctx, i); o = g.O.get(ctx, i); A = lambda k: g.v.get(ctx, simp(add(i, k)))
        def go(n, h2, out):
            j = simp(add(i, n))
            ctx.assume(And(g.R.get(ctx, j), eq(g.H.get(ctx, j), h2), eq(g.O.get(ctx, j), add(o, len(out)))))
            for k, b in enumerate(out): ctx.assume(eq(u8(g.D.get(ctx, simp(add(o, k)))), b))
        if a.branch(eq(i, g.n)):
            if a.branch(eq(h, 0)): ctx.assume(Not(g.bad))
            else: ctx.assume(g.bad)
            return
        c = A(0); e1 = simp(add(i, 1))
        if not a.branch(eq(c, 92)):
            ctx.assume(ne(i, g.fb))
            if a.branch(Or(ne(h, 0), between(0, c, 0x1F))): ctx.assume(g.bad)
            else: go(1, 0, [u8(c)])
            return
        ctx.assume(le(g.fb, i))
        if a.branch(le(g.n, e1)): ctx.assume(g.bad); return
        x = A(1)
        if a.branch(eq(x, ord("u"))):
            if a.branch(lt(sub(g.n, i), 6)): ctx.assume(g.bad); return
            d = [A(k) for k in range(2, 6)]
            if not a.branch(And(*[xdigit(q) for q in d])): ctx.assume(g.bad); return
            v = hex4(d)
            if a.branch(ne(h, 0)):
                if not a.branch(between(0xDC00, v, 0xDFFF)): ctx.assume(g.bad); return
                v = add(add(mul(sub(h, 0xD800), 1024), sub(v, 0xDC00)), 0x10000)
                return go(6, 0, encode(v)[3][1])
            if a.branch(between(0xD800, v, 0xDBFF)): return go(6, v, [])
            for cd, bs in encode(v):
                if a.branch(cd): return go(6, 0, bs)
        if a.branch(Or(ne(h, 0), Not(Or(*[eq(x, k) for k in ESC])))): ctx.assume(g.bad); return
        r = x
        for k, b in ESC.items():
            if k != b: r = If(eq(x, k), b, r)
        go(2, 0, [r])
    def var(self, L, name):
        try: return L.v(name)
        except Annot: return L.ex.load(L.addr(name), P)
    def scan(self, a, L):
        g = L.g; ctx = a.ctx
        if L.entry: g.second = not ctx.valid(eq(L.v("state"), 1))
        S = a.chunk(L.addr("s"), 8, "s", kind="local")
        if a.produce: S.set(0, P, simp(add(g.p, ctx.fresh("i", 0, SZ))))
        s = S.get(0, P); i = simp(sub(s, g.p))
        a.fact(And(le(0, i), le(i, g.n)), "the position is within the body")
        R = g.R.get(ctx, i); h, o = g.H.get(ctx, i), g.O.get(ctx, i)
        a.fact(R, "a unit starts here")
        fs, ss = L.v("first_surrogate"), L.v("second_surrogate_expected")
        if not g.second:
            L.let(a, "state", 1, "the first pass only looks for an escape")
            a.fact(And(eq(ss, 0), eq(h, 0), eq(o, i)), "no escape so far")
            a.fact(le(i, g.fb), "no escape so far")
        else:
            L.let(a, "state", 3, "the second pass decodes")
            a.fact(Iff(eq(ss, 0), eq(h, 0)), "a high surrogate is waiting")
            a.fact(between(0, ss, 1), "flag")
            a.fact(Implies(ne(h, 0), And(eq(fs, h), between(0xD800, h, 0xDBFF))), "the high surrogate waiting")
            a.fact(And(le(0, o), le(add(o, If(eq(h, 0), 0, 6)), i)), "the output is not longer than the input")
            a.fact(Or(lt(o, i), And(le(i, g.fb), eq(h, 0))), "each escape makes the output shorter")
            out = L.v("out_start")
            L.let(a, "d", simp(add(out, o)), "the output position")
            cv = a.chunk(out, g.n, "decoded", free=True); arr = cv.seg(0, 1, g.n, CH, name="out")
            a.forall([arr], lambda k: Implies(And(le(0, k), lt(k, o)), eq(arr.get(ctx, k), g.D.get(ctx, k))), "decoded so far")
            a.forall([arr], lambda k: Implies(And(le(o, k), lt(k, g.n)), eq(arr.get(ctx, k), 0)), "zero after it")
        if a.produce: self.unit(a, g, i)
    def post(self, a, g, ret, outp, lenp, p, n):
        ctx = a.ctx
        c1 = a.chunk(outp, 8, "output", kind=g.k1); c2 = a.chunk(lenp, 8, "output length", kind=g.k2)
        if a.produce: a.fact(between(0, ret, 1)); return self.give(a, g, ret, c1, c2)
        m = g.O.get(ctx, n)
        if a.branch(eq(ret, 0)):
            u = ctx.ghosts.get("utf8")
            if u:
                self.checked(a, g, u[-1], m); a.fact(Or(g.bad, eq(u[-1][5], 0)), "refused: the text denoted is not valid UTF-8")
            else: a.fact(g.bad, "refused only when the body is no JSON string")
            return
        a.fact(eq(ret, 1), "success is 1")
        a.fact(Not(g.bad), "accepted only when the body is a JSON string")
        out, L = c1.get(0, P), c2.get(0, U64)
        if a.branch(eq(out, p)):
            a.fact(eq(L, n), "passed through whole"); a.fact(eq(g.fb, n), "passed through only without escapes"); return
        u = ctx.ghosts.get("utf8")
        if not u: ctx.fail("the decoded text is checked to be UTF-8")
        self.checked(a, g, u[-1], m); a.fact(eq(u[-1][5], 1), "accepted only when the decoded text is valid UTF-8")
        a.fact(eq(L, m), "the length of the text denoted")
        cv = a.chunk(out, n, "decoded"); arr = cv.seg(0, 1, n, CH)
        a.arreq(arr, g.D, 0, m, "the output is the text denoted")
        a.fact(lt(m, n), "shorter than the body"); a.fact(eq(arr.get(ctx, m), 0), "terminated"); a.fact(lt(g.fb, n), "decoded only with escapes")
    def give(self, a, g, ret, c1, c2):
        """to callers: refused, the body itself, or a new block holding the text denoted"""
        ctx = a.ctx; r = G(p=g.p, n=g.n, ok=a.branch(eq(ret, 1)), plain=False)
        ctx.ghosts["unescape"] = ctx.ghosts.get("unescape", []) + [r]
        if not r.ok: return
        r.plain = a.branch(eq(ctx.fresh("plain", 0, 1), 1))
        if r.plain: c1.set(0, P, g.p); c2.set(0, U64, g.n); return
        r.m = ctx.fresh("decoded_len", 0, SZ); r.D = g.D = Base(ctx, "D", 1, True); r.L = ctx.fresh("text_len", 0, SZ)      # L: up to the first zero byte
        ctx.assume(And(lt(r.m, g.n), le(r.L, r.m)))
        ch = ctx.malloc(g.n, "decoded"); cv = CV(a, ch); cv.setseg(0, 1, g.n, g.D, CH)
        ctx.assume(And(eq(g.D.get(ctx, r.m), 0), eq(g.D.get(ctx, r.L), 0)))
        ctx.addfact([g.D], lambda t: Implies(And(le(0, t), lt(t, r.L)), ne(g.D.get(ctx, t), 0)))
        ctx.__dict__.setdefault("_strlen", {})[("strlen", id(g.D), 0)] = r.L; ctx.keep.append((g.D, 0))
        ch.nuls.append(r.L)
        c1.set(0, P, ch.base); c2.set(0, U64, r.m)
    def checked(self, a, g, u, m):
        ctx = a.ctx; p, n, raw, off, empty, ret = u
        a.fact(eq(n, m), "exactly the decoded text is validated")
        k = ctx.fresh("k")
        if not empty: a.fact(Implies(And(le(0, k), lt(k, m)), eq(raw.get(ctx, simp(add(off, k))), g.D.get(ctx, k))), "exactly the decoded text is validated")
