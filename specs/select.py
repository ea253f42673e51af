"""cee-json/value.c cee_json_select (C22): the function is the iteration of the step written down here, started at the
selector's first byte with no token; member and element lookup enter as recorded calls."""
from .base import *
from .str import *
from .json import jval, kind
from .jobj import anyjson

MAXT = 256
NONE, OBJ, ARR, TYP = 0, 1, 2, 3
def isany(c, s): return Or(*[eq(c, ord(x)) for x in s])
def found(a, c, o, *r):
    ctx = a.ctx
    c.obj = o
    if c.fn == "cee_json_object_get":
        ch, s, i = a.ex.bytes_at(r[0], "key"); c.arr, c.i = s.fields[0][1], i
    if ctx.branch(eq(c.ret, 0)): c.ret0 = True; return
    anyjson(a, c); c.ret0 = False
    p = a.ex.load(simp(add(c.ret, 8)), U64); ctx.assume(ne(p, 0))

@register
class JsonSelect(Contract):
    fn = "cee_json_select"; props = ("C22",); loops = {("cee_json_select", 0): "loop"}; nocall = True; boundable = False
    views = {f: Ev(f, make=found) for f in ("cee_json_array_get", "cee_json_object_get")}
    def pre(self, a, o, fmt, pack):
        ctx = a.ctx
        g = G(F=text_in(a, fmt, "fmt", 1 << 30), fmt=fmt, o=o, z=a.branch(eq(o, 0)), s=None, va=[])
        if not g.z:
            v = jval(a, o); ctx.assume(ne(v.p, 0))
        g.INT = a.array("intarg", I32); g.next = 0
        def get(ex, pos, ty):
            if ty[0] == "int": v = g.INT.get(ctx, pos); t = FnBase(ctx, "text%d", v); x = (t, t.length(ctx, 1, 11))
            else: v = ctx.fresh("arg", 4096, 1 << 46); x = text_in(a, v, "arg", 1 << 30)
            g.va.append((pos, ty[0], v, x))
            return v
        pack.get = get
        return g
    def builtin(self, ex, name):
        if name != "atoi": return None
        def atoi(n, args):
            ctx = ex.ctx; p = ex.ev(args[0])
            ex.cstr(p, "number")
            ch, s, i = ex.bytes_at(p, "number")
            c = G(fn="atoi", args=(p,), ret=ctx.fresh("atoi", -(1 << 31), (1 << 31) - 1), arr=s.fields[0][1], i=i)
            ctx.ghosts["calls"] = ctx.ghosts.get("calls", []) + [c]
            return c.ret
        return atoi
    # ---- the step
    def is_token(self, a, c, s, what):
        """the call was given the token"""
        ctx = a.ctx; k = ctx.fresh("k")
        a.fact(eq(c.arr.get(ctx, simp(add(c.i, s.tl))), 0), what + ": the text ends with the token")
        a.fact(Implies(And(le(0, k), lt(k, s.tl)), eq(c.arr.get(ctx, simp(add(c.i, k))), s.tok.get(ctx, k))), what + ": the text is the token")
    def one(self, a, fn):
        cs = calls(a, fn)
        if len(cs) != 1: a.ctx.fail("one call of %s" % fn, kind="own")
        return cs[0]
    def kind_is(self, a, s, k): return eq(a.ex.load(s.o, U32), kind(a, k))
    def step(self, a, s):
        """the step from state s: (works, ended, value, next state or None when the selector ends here)"""
        ctx = a.ctx; g = self.g; F = g.F[0]
        c = F.get(ctx, s.q)
        n = G(o=s.o, vp=s.vp, nx=s.nx, tok=None)
        if a.branch(And(gt(s.tl, 0), Or(eq(c, 0), isany(c, ".[]:")))):
            if a.branch(eq(s.nx, OBJ)):
                if not a.branch(self.kind_is(a, s, "object")): return False, None
                x = self.one(a, "cee_json_object_get"); a.fact(eq(x.obj, s.o), "the member is looked up in the current value"); self.is_token(a, x, s, "member")
                if x.ret0: return False, None
                n.o = x.ret
            elif a.branch(eq(s.nx, ARR)):
                if not a.branch(self.kind_is(a, s, "array")): return False, None
                x = self.one(a, "cee_json_array_get"); y = self.one(a, "atoi"); a.fact(eq(x.obj, s.o), "the element is looked up in the current value")
                a.fact(eq(x.args[1], y.ret), "at the index written in the token"); self.is_token(a, y, s, "index")
                if x.ret0: return False, None
                n.o = x.ret
            else:
                t = s.tok.get(ctx, 0); K = lambda k: self.kind_is(a, s, k)
                ok = And(Implies(eq(t, ord("s")), K("string")), Implies(eq(t, ord("n")), Or(K("double"), K("i64"), K("u64"))), Implies(eq(t, ord("o")), K("object")),
                         Implies(eq(t, ord("a")), K("array")), Implies(eq(t, ord("b")), K("boolean")), Implies(eq(t, ord("!")), K("null")))
                if not a.branch(ok): return False, None
        elif a.branch(ne(s.nx, NONE)):
            if a.branch(eq(c, 0)): return False, None
            if not a.branch(eq(c, ord("*"))):
                if a.branch(ge(s.tl, MAXT)): return False, None
                n.q = add(s.q, 1); n.tl = simp(add(s.tl, 1)); n.tok = lambda k: If(eq(k, s.tl), c, s.tok.get(ctx, k))
                return True, n
            if a.branch(eq(s.nx, TYP)): return False, None
            if not g.va: ctx.fail("an argument is taken", kind="own")
            pos, ty, v, (x, l) = g.va[-1]
            a.fact(eq(pos, s.vp), "the next argument"); a.fact(Iff(ty == "int", eq(s.nx, ARR)), "an int for an index, a text for a name")
            if a.branch(gt(add(s.tl, l), MAXT)): return False, None
            n.q = add(s.q, 1); n.tl = simp(add(s.tl, l)); n.vp = add(s.vp, 1)
            n.tok = lambda k: If(ge(k, s.tl), x.get(ctx, simp(sub(k, s.tl))), s.tok.get(ctx, k))
            return True, n
        q = add(s.q, 1) if a.branch(eq(c, ord("]"))) else s.q
        d = F.get(ctx, q)
        if a.branch(eq(d, 0)): n.q = None; return True, n
        for ch, k in ((".", OBJ), ("[", ARR), (":", TYP)):
            if a.branch(eq(d, ord(ch))): n.nx = k; n.tl = 0; n.q = add(q, 1); return True, n
        return False, None
    def loop(self, a, L):
        g = L.g; ctx = a.ctx; self.g = g; F, n = g.F
        a.log("calls")
        if a.produce:
            q = ctx.fresh("q"); L.let(a, "p", simp(add(g.fmt, q)))
            o = L.v("o")
            ctx.ghosts["calls"] = []; g.va = []
            anyjson(a, G(ret=o)); ctx.assume(ne(a.ex.load(simp(add(o, 8)), U64), 0))
        else: q, o = simp(sub(L.v("p"), g.fmt)), L.v("o")
        nx, tl = L.v("next"), L.v("tlen")
        tok = a.chunk(L.addr("token"), MAXT + 1, "token", kind="local").seg(0, 1, MAXT + 1, CH, name="token")
        va = [v for v in a.ex.fr.va.values() if v.pack is not None][0]
        if a.produce: va.pos = ctx.fresh("taken", 0, 1 << 30)
        if not a.produce:
            if L.entry:
                a.fact(And(eq(q, 0), eq(nx, NONE), eq(tl, 0), eq(o, g.o), eq(va.pos, 0)), "the walk starts at the selector's first byte, from the given value, without a token")
            else:
                ok, s = self.step(a, g.s)
                if not ok: a.fact(False, "a step that does not apply ends the selection")
                if s.q is None: a.fact(False, "the end of the selector ends the selection")
                a.fact(And(eq(q, s.q), eq(nx, s.nx), eq(tl, s.tl), eq(va.pos, s.vp)), "the step moves to the specified state")
                a.fact(eq(o, s.o), "the step selects the specified value")
                if s.tok:
                    k = ctx.fresh("k"); a.fact(Implies(And(le(0, k), lt(k, tl)), eq(tok.get(ctx, k), s.tok(k))), "the token grows by the specified bytes")
        a.fact(And(le(0, q), le(q, n)), "within the selector")
        a.fact(And(le(0, nx), le(nx, 3), le(0, tl), le(tl, MAXT), Implies(eq(nx, NONE), eq(tl, 0))), "the token's kind and length are in range")
        a.fact(ne(o, 0), "there is a current value")
        a.forall([tok], lambda k: Implies(And(le(0, k), lt(k, tl)), ne(tok.get(ctx, k), 0)), "the token has no NUL")
        if a.produce: g.s = G(q=q, nx=nx, tl=tl, o=o, tok=tok, vp=va.pos)
    def post(self, a, g, ret, o, fmt, pack):
        ctx = a.ctx
        if g.z: a.fact(eq(ret, 0), "NULL selects nothing"); return
        if g.s is None: ctx.fail("the selector is walked", kind="own")
        ok, n = self.step(a, g.s)
        if not ok: a.fact(eq(ret, 0), "NULL when a step does not apply or the selector is malformed")
        else:
            if n.q is not None: a.fact(False, "the selection stops only at the selector's end or at a step that does not apply")
            a.fact(eq(ret, n.o), "the value reached is returned")

@register
class JsonSelectAsInt(Contract):
    fn = "cee_json_select_as_int"; props = ("C22",); nocall = True
    views = {"cee_json_select": Ev("cee_json_select"), "cee_json_to_intx": Ev("cee_json_to_intx")}
    def post(self, a, g, ret, o, x, fmt):
        c = calls(a, "cee_json_select")
        if len(c) != 1: a.ctx.fail("one selection", kind="own")
        c = c[0]; a.fact(And(eq(c.args[0], o), eq(c.args[1], fmt)), "selected from the value by the selector")
        d = calls(a, "cee_json_to_intx")
        if a.branch(eq(c.ret, 0)):
            a.fact(ne(ret, 0), "an error when nothing is selected")
            if d: a.ctx.fail("nothing is stored then", kind="own")
            return
        if len(d) != 1: a.ctx.fail("the value selected is converted", kind="own")
        a.fact(And(eq(d[0].args[0], c.ret), eq(d[0].args[1], x), eq(ret, d[0].ret)), "the value selected is converted and the conversion's status returned")
