"""cee-json/value.c: accessors, constructors, updates, escaping (C19, C20, C21)."""
from .base import *
from .str import *

def hexd(q): return If(lt(q, 10), add(48, q), add(87, q))
SHORT = {34: 34, 92: 92, 8: 98, 12: 102, 10: 110, 13: 114, 9: 116}
def esclen(c):
    """length of the JSON escape of byte c"""
    return If(Or(*[eq(c, k) for k in SHORT]), 2, If(And(le(0, c), le(c, 31)), 6, 1))
def escbyte(c, d):
    """byte d of it"""
    r = If(eq(d, 0), 92, If(eq(d, 1), 117, If(eq(d, 4), add(48, T(c) / 16), If(eq(d, 5), hexd(T(c) % 16), 48))))
    two = 0
    for k, v in SHORT.items(): two = If(eq(c, k), v, two)
    return If(Or(*[eq(c, k) for k in SHORT]), If(eq(d, 0), 92, two), If(And(le(0, c), le(c, 31)), r, c))

@register
class EscapeString(Contract):
    """POS[i]: where the escape of byte i starts; POS[0] = 0, POS[i+1] = POS[i] + esclen(S[i])"""
    boundable = False
    fn = "cee_json_escape_string"; props = ("C21",); loops = {("cee_json_escape_string", 0): "loop"}
    def pre(self, a, s, n, dest, dsz, np, nsz):
        ctx = a.ctx
        g = G(n=n, S=None)
        a.fact(le(mul(6, n), SZ - 8), "the escaped text is shorter than 2^31")
        a.fact(And(gt(dsz, mul(6, n)), le(dsz, 1 << 46)), "the destination has room for 6 bytes per input byte and a terminator")
        if a.branch(gt(n, 0)):
            cv = a.chunk(s, n, "s", ro=True); g.S = cv.seg(0, 1, n, CH, name="s")
        g.old = a.chunk(dest, dsz, "dest").seg(0, 1, dsz, CH, name="dest")
        g.np = not a.branch(eq(np, 0)); g.nsz = not a.branch(eq(nsz, 0))
        if g.np: a.chunk(np, 8, "next_dest")
        if g.nsz: a.chunk(nsz, 8, "next_size")
        g.POS = Base(ctx, "POS", 8, False, False); ctx.assume(eq(g.POS.get(ctx, 0), 0))
        g.K = ctx.fresh("K", 0, SZ); g.J = ctx.fresh("J", 0, 6)
        return g
    def written(self, a, g, arr, upto, label):
        if g.S is None: return
        ctx = a.ctx; c = g.S.get(ctx, g.K); p = g.POS.get(ctx, g.K)
        at = And(lt(g.K, upto), lt(g.K, g.n))
        a.fact(Implies(at, And(le(0, p), le(add(p, esclen(c)), g.POS.get(ctx, upto)))), label + " (position)")
        a.fact(Implies(And(at, lt(g.J, esclen(c))), eq(arr.get(ctx, simp(add(p, g.J))), escbyte(c, g.J))), label)
    def loop(self, a, L):
        g = L.g; ctx = a.ctx; i, j = L.v("i"), L.v("j")
        if not a.produce and not L.entry and g.S is not None:
            ctx.assume(eq(g.POS.get(ctx, simp(add(g.i, 1))), add(g.POS.get(ctx, g.i), esclen(g.S.get(ctx, g.i)))))     # definition
        a.fact(And(le(0, i), le(i, g.n), eq(j, g.POS.get(ctx, i)), le(0, j), le(j, mul(6, i))), "the output position is the specified one")
        if a.produce: g.i = i
        cv = a.chunk(L.v("dest"), L.v("dest_size"), "dest")
        arr = cv.seg(0, 1, L.v("dest_size"), CH, name="dest")
        self.written(a, g, arr, i, "every byte so far has been escaped")
    def post(self, a, g, ret, s, n, dest, dsz, np, nsz):
        ctx = a.ctx
        cv = a.chunk(dest, dsz, "dest"); arr = cv.seg(0, 1, dsz, CH, name="dest")
        e = g.POS.get(ctx, n)
        a.fact(And(eq(ret, e), le(0, e), le(e, mul(6, n))), "the number of bytes written is returned")
        self.written(a, g, arr, n, "every byte is escaped")
        if g.np: a.chunk(np, 8, "next_dest").set(0, P, add(dest, e), "the next position is reported")
        if g.nsz: a.chunk(nsz, 8, "next_size").set(0, U64, sub(dsz, e), "the remaining size is reported")

# ------------------------------------------------------------------------------------------------ values (C19)
from .list import list_own, list_is, listblock
from .simple import taggedblock, boxblock, TaggedMkE, BlockNZ, enumv, BH, XH, FS
KIND = dict(undefined=0, null=1, boolean=2, double=3, i64=4, u64=5, string=6, blob=7, object=8, array=9, strn=10)
EINVAL = 22
def kind(a, k): return a.tu.enumn["CEE_JSON_" + k.upper()]

def jval(a, j):
    """the JSON value at j: its kind t and its payload p; only read"""
    ctx = a.ctx
    if a.produce:
        t = ctx.fresh("kind", 0, 10)
        cv = a.chunk(j, If(eq(t, kind(a, "strn")), 32, 16), "json", ro=True)
        cv.ch.cells[0] = (8, False, t)
        g = G(cv=cv, t=t, p=cv.get(8, U64))
    else:
        t = a.ex.load(j, U32); g = G(t=t, p=a.ex.load(simp(add(j, 8)), U64))
        a.fact(And(le(0, t), le(t, 10)), "a JSON kind")
    return g

class JsonGet(Contract):
    """accessor: the payload exactly for the given kinds"""
    props = ("C19",); kinds = ()
    def pre(self, a, j): return jval(a, j)
    def post(self, a, g, ret, j):
        a.fact(eq(ret, If(Or(*[eq(g.t, kind(a, k)) for k in self.kinds]), g.p, 0)), "the payload exactly when the value is of this kind")
def getter(name, *ks):
    class C(JsonGet):
        fn = "cee_json_to_" + name; kinds = ks
    C.__name__ = "JsonTo_" + name
    return register(C)
getter("object", "object"); getter("array", "array"); getter("str", "string"); getter("blob", "blob"); getter("boxed", "u64", "i64", "double")

@register
class JsonToStrn(Contract):
    fn = "cee_json_to_strn"; props = ("C19",)
    def pre(self, a, j, sp, np):
        g = jval(a, j); ctx = a.ctx
        s1 = a.chunk(sp, 8, "start"); s2 = a.chunk(np, 8, "size")
        g.o = (s1.get(0, U64), s2.get(0, U64)) if a.produce else None
        if a.branch(eq(g.t, kind(a, "strn"))):
            g.v = (g.cv.get(16, U64), g.cv.get(24, U64)) if a.produce else (a.ex.load(simp(add(j, 16)), U64), a.ex.load(simp(add(j, 24)), U64))
        else: g.v = None
        return g
    def post(self, a, g, ret, j, sp, np):
        s1 = a.chunk(sp, 8, "start"); s2 = a.chunk(np, 8, "size")
        v = g.v or g.o
        a.fact(eq(ret, 1 if g.v else 0), "true exactly for texts given by reference")
        if v:
            s1.set(0, U64, v[0], "the start is stored, or left alone"); s2.set(0, U64, v[1], "the length is stored, or left alone")

class JsonToX(Contract):
    """store the value and return 0 for its own kind; EINVAL and nothing stored otherwise"""
    props = ("C19",); k = None; prim = None; ty = None; rty = None
    def pre(self, a, j, r):
        g = jval(a, j); ctx = a.ctx
        g.rc = a.chunk(r, a.tu.sizeof(self.rty), "result"); g.old = g.rc.get(0, self.rty) if a.produce else None
        g.m = a.branch(eq(g.t, kind(a, self.k)))
        if g.m:
            cv = own(a, g.p, XH, "_", "boxed")
            a.fact(eq(cv.f("type"), enumv(a, "cee_primitive_" + self.prim)), "the value is boxed with its own type")
            g.bt = cv.f("type"); g.v = cv.get(a.tu.off(XH, "_"), self.ty)
        return g
    def post(self, a, g, ret, j, r):
        rc = a.chunk(r, a.tu.sizeof(self.rty), "result")
        if not g.m:
            a.fact(eq(ret, EINVAL), "EINVAL for any other kind")
            if g.old is not None: rc.set(0, self.rty, g.old, "the result is left untouched")
            return
        a.fact(eq(ret, 0), "0 for its own kind")
        self.stored(a, g, rc)
        cv = own(a, g.p, XH, "_", "boxed"); cv.setf("type", g.bt); cv.set(a.tu.off(XH, "_"), self.ty, g.v)
    def stored(self, a, g, rc): rc.set(0, self.rty, g.v, "exactly the value is stored")
def xgetter(name, k, prim, ty, rty=None):
    C = type("JsonTo_" + name, (JsonToX,), dict(fn="cee_json_to_" + name, k=k, prim=prim, ty=ty, rty=rty or ty))
    return register(C)
xgetter("doublex", "double", "f64", F64); xgetter("i64x", "i64", "i64", I64); xgetter("u64x", "u64", "u64", U64)
@register
class JsonToIntx(JsonToX):
    fn = "cee_json_to_intx"; k = "i64"; prim = "i64"; ty = I64; rty = I32
    def stored(self, a, g, rc):
        if a.produce: rc.set(0, I32, a.ex.wrap(g.v, I32)); return
        a.fact(Implies(And(le(-(1 << 31), g.v), lt(g.v, 1 << 31)), eq(rc.get(0, I32), g.v)), "exactly the value is stored if an int can hold it")

# ---- the unique objects
SINGLES = {"cee_json_true": ("boolean", 1), "cee_json_false": ("boolean", 0), "cee_json_undefined": ("undefined", 0), "cee_json_null": ("null", 0)}
SGH = "_cee_singleton_header"
def single(a, fn):
    """the address of the unique object as callers see it"""
    ctx = a.ctx
    tab = ctx.__dict__.setdefault("_single", {})
    if not tab:
        for k, f in enumerate(SINGLES): tab[f] = ctx.fresh("the_" + f, 8192, (1 << 47) - 4096)
        xs = list(tab.values())
        for i, x in enumerate(xs):
            for y in xs[:i]: ctx.assume(Or(ge(x, add(y, 72)), ge(y, add(x, 72))))
    return tab[fn]
def single_is(a, g, x):
    """SECT after the unique object x has been initialised once more"""
    ctx = a.ctx; sec = sect0(x)
    f = dict(g.s.fields)
    for k in SECTF: f[k] = f[k].store(sec, faddr(a, "_cee_singleton_noop") if k == "trace" else 0)
    return f, g.s.dom.store(sec, True)
class JsonSingle(Contract):
    props = ("C19",)
    def pre(self, a): return G(s=sect(a))
    def post(self, a, g, ret):
        ctx = a.ctx
        if a.produce:
            x = single(a, self.fn)
            for c, y in own_sects(a): ctx.assume(ne(y, sect0(x)))
            f, d = single_is(a, g, x); a.map_is("SECT", f, d)
            ctx.assume(g.s.dom.get(ctx, sect0(x)))
            return x
        k, v = SINGLES[self.fn]
        cs = a.tu.rec("cee_sect").size
        def load(o, ty): return a.ex.load(simp(add(ret, o)), ty)
        a.fact(And(eq(load(0, U64), kind(a, k)), eq(load(8, U64), v)), "the object is of its kind and carries its value")
        r = ctx.find(simp(sub(ret, cs)))
        if r is None or r[0].kind != "static": ctx.fail("the object is static", kind="post")
        for f in a.tu.rec("cee_sect").fields:
            if f[3] is not None: x = a.ex.cellread(r[0], cval(simp(r[1])) + f[1], a.tu.sizeof(f[2]), f[2], f[3])
            else: x = load(f[1] - cs, f[2])
            a.fact(eq(x, faddr(a, "_cee_singleton_noop") if f[0] == "trace" else 0), "header field %s is initialised, deleting the object does nothing" % f[0])
        a.map_is("SECT", g.s.fields, g.s.dom)
        a.ex.frames.append(self.fr(a))
        try:
            reg = dict(REG()); 
            again = self.raw(a, self.fn)
            a.fact(eq(again, ret), "the same object every time")
            for o in SINGLES:
                if o != self.fn: a.fact(ne(self.raw(a, o), ret), "an object of its own")
        finally: a.ex.frames.pop()
    def fr(self, a):
        from cvf.exec import Frame
        return Frame(a.tu.funcs[self.fn], self.fn + " again")
    def raw(self, a, fn): return a.ex.callbody(a.tu.funcs[fn], fn, [])
def REG():
    from cvf.dsl import REGISTRY
    return REGISTRY
for f in SINGLES: register(type("Json_" + f[9:], (JsonSingle,), dict(fn=f)))

@register
class JsonBool(Contract):
    fn = "cee_json_bool"; props = ("C19",)
    def pre(self, a, b): return G(s=sect(a))
    def post(self, a, g, ret, b):
        ctx = a.ctx
        T, F = single(a, "cee_json_true"), single(a, "cee_json_false")
        a.fact(eq(ret, If(ne(b, 0), T, F)), "true for true, false for false")
        x = T if a.branch(ne(b, 0)) else F
        if a.produce:
            for c, y in own_sects(a): ctx.assume(ne(y, sect0(x)))
            ctx.assume(g.s.dom.get(ctx, sect0(x)))
        f, d = single_is(a, g, x); a.map_is("SECT", f, d)
        return x if a.produce else None

@register
class JsonToBoolx(Contract):
    fn = "cee_json_to_boolx"; props = ("C19",)
    def pre(self, a, p, r):
        sect(a)
        if a.verify:
            cv = a.chunk(p, 16, "json", ro=True); t, v = cv.get(0, U32), cv.get(8, U64); T, F = single(a, "cee_json_true"), single(a, "cee_json_false")
            a.fact(And(Iff(eq(t, kind(a, "boolean")), Or(eq(p, T), eq(p, F))), Implies(eq(p, T), eq(v, 1)), Implies(eq(p, F), eq(v, 0)), le(t, 10)), "the booleans are the two singletons")
        rc = a.chunk(r, 1, "result"); return G(old=rc.get(0, B8) if a.produce else None)
    def post(self, a, g, ret, p, r):
        T, F = single(a, "cee_json_true"), single(a, "cee_json_false")
        rc = a.chunk(r, 1, "result")
        a.fact(eq(ret, If(Or(eq(p, T), eq(p, F)), 0, EINVAL)), "0 exactly for true and false")
        if a.branch(eq(p, T)): rc.set(0, B8, 1, "true is stored for true")
        elif a.branch(eq(p, F)): rc.set(0, B8, 0, "false is stored for false")
        elif g.old is not None: rc.set(0, B8, g.old, "the result is left untouched")
        if a.verify: a.maps_touched.add("SECT")

# ---- constructors
class JsonMk(Contract):
    """a payload block and the JSON value holding (and counting) it"""
    props = ("C19", "C07"); k = None
    def pre(self, a, st, *r): return inchain(a, st)
    def payload(self, a, g, fr, p, *r): raise NotImplementedError
    def post(self, a, g, ret, st, *r):
        sv = state_own(a, st); keep_state(a, g.st, sv)
        fr = Fresh(a, g, sv)
        p = a.ctx.fresh("payload", 4096, 1 << 47) if a.produce else a.ex.load(simp(add(ret, 8)), U64)
        self.payload(a, g, fr, p, *r)
        fr.count(RC, p)
        taggedblock(fr, ret, RC, kind(a, self.k), p)
        fr.done()
def boxmk(name, k, tn, ty):
    def payload(self, a, g, fr, p, d): boxblock(fr, p, tn, ty, d)
    return register(type("Json_%s_mk" % name, (JsonMk,), dict(fn="cee_json_%s_mk" % name, k=k, payload=payload)))
boxmk("double", "double", "f64", F64); boxmk("i64", "i64", "i64", I64); boxmk("u64", "u64", "u64", U64)
@register
class JsonStrMk(TaggedMkE):
    fn = "cee_json_str_mk"; props = ("C19", "C07")
    def pre(self, a, st, s): return TaggedMkE.pre(self, a, st, RC, kind(a, "string"), s)
    def post(self, a, g, ret, st, s): return TaggedMkE.post(self, a, g, ret, st, RC, kind(a, "string"), s)
@register
class JsonStrMkf(JsonMk):
    fn = "cee_json_str_mkf"; k = "string"
    def pre(self, a, st, fmt, v):
        g = inchain(a, st); g.F, g.L = fmt_of(a, fmt, v); a.fact(lt(g.L, SZ - 4096), "text below 2^31 bytes")
        return g
    def trap(self, a, g, st, fmt, v): return eq(fmt, 0)
    def payload(self, a, g, fr, p, fmt, v): strblock(fr, p, g.L, lambda k: g.F.get(a.ctx, k), "the string is the formatted text")
@register
class JsonArrayMk(JsonMk):
    fn = "cee_json_array_mk"; k = "array"
    def pre(self, a, st, n): a.fact(ge(n, 0), "capacity not negative"); return inchain(a, st)
    def payload(self, a, g, fr, p, n): listblock(fr, p, RC, n)
@register
class JsonBlobMk(JsonMk):
    fn = "cee_json_blob_mk"; k = "blob"
    def pre(self, a, st, src, n):
        g = inchain(a, st); a.fact(lt(n, BIG), "size below 2^40"); g.S = None
        if a.branch(gt(n, 0)):
            if a.produce: cv = a.chunk(src, n, "src", ro=True); g.S = cv.seg(0, 1, n, CH, name="src"); g.o = 0
            else: ch, s, i = a.ex.bytes_at(src, "blob"); a.fact(le(add(i, n), s.count), "the source has the bytes"); g.S = s.fields[0][1]; g.o = i
        return g
    def payload(self, a, g, fr, p, src, n):
        ctx = a.ctx
        cv, arr = BlockNZ.blockblock(None, fr, p, n)
        if g.S is not None:
            a.forall([arr], lambda k: Implies(And(le(0, k), lt(k, n)), eq(arr.get(ctx, k), g.S.get(ctx, simp(add(g.o, k))))), "the bytes given are copied")
@register
class JsonStrnMk(Contract):
    fn = "cee_json_strn_mk"; props = ("C19", "C07")
    def pre(self, a, st, p, n): return inchain(a, st)
    def post(self, a, g, ret, st, p, n):
        sv = state_own(a, st); keep_state(a, g.st, sv)
        fr = Fresh(a, g, sv)
        cv = taggedblock(fr, ret, RC, kind(a, "strn"), 0); off = a.tu.off("_cee_tagged_header", "_")
        cv.set(off + 16, P, p, "the text given"); cv.set(off + 24, U64, n, "the length given")
        fr.done()
@register
class ListToJson(TaggedMkE):
    fn = "cee_list_to_json"; props = ("C19", "C07"); k = "array"
    def pre(self, a, v):
        s = sect(a); a.fact(s.dom.get(a.ctx, sect0(v)), "a live container")
        st = s["state"].get(a.ctx, sect0(v))
        g = TaggedMkE.pre(self, a, st, RC, kind(a, self.k), v); g.stp = st
        return g
    def post(self, a, g, ret, v): return TaggedMkE.post(self, a, g, ret, g.stp, RC, kind(a, self.k), v)
@register
class MapToJson(ListToJson):
    fn = "cee_map_to_json"; k = "object"

# ---- arrays
class JsonArr(Contract):
    """an operation on a JSON array: traps on any other kind"""
    props = ("C19",)
    def pre(self, a, j, *r):
        g = jval(a, j); g.arr = a.branch(eq(g.t, kind(a, "array")))
        if g.arr:
            g.l = list_own(a, g.p); a.fact(lt(g.l.n, SZ - 1), "length below 2^31")
        return g
    def trap(self, a, g, j, *r): return not g.arr
@register
class JsonArrayLength(JsonArr):
    fn = "cee_json_array_length"
    def post(self, a, g, ret, j):
        l = g.l; a.fact(eq(ret, l.n), "the number of elements"); list_is(a, g.p, l.n, l.arr, l.pol)
@register
class JsonArrayGet(JsonArr):
    fn = "cee_json_array_get"
    def post(self, a, g, ret, j, i):
        l = g.l; list_is(a, g.p, l.n, l.arr, l.pol)
        if a.branch(And(le(0, i), lt(i, l.n))): a.fact(eq(ret, l.arr.get(a.ctx, i)), "the element at the index")
        else: a.fact(eq(ret, 0), "NULL outside the array")
