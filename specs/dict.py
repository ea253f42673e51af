"""dict.c (C06): the table of hash.py and the lists of everything added."""
from .base import *
from .hash import *
from .list import list_own, list_is, listblock

DH = "_cee_dict_header"
def tabp(a, d): return simp(a.ex.load(simp(d), P))
def dict_own(a, d, lists=True):
    ctx = a.ctx
    cv = own(a, d, DH, "_", "dict"); g = G(cv=cv, keys=cv.f("keys"), vals=cv.f("vals"), size=cv.f("size"), pol=cv.f("del_policy"), d=d)
    o = a.tu.off(DH, "_"); g.tab = cv.get(o, P); g.rest = cv.get(o + 8)
    if a.produce: g.h = G(IN=BBase(ctx, "IN"), VAL=Base(ctx, "VAL", 8, False, False), used=ctx.fresh("used", 0, SZ)); a.pred("htab", g.tab, g.h)
    else:
        p = a.pred("htab", g.tab, None)
        if p is None: ctx.fail("the dict has its table", kind="own")
        g.h = p.args
    if lists:
        g.lk, g.lv = list_own(a, g.keys), list_own(a, g.vals)
        a.fact(And(eq(g.lk.n, g.lv.n), le(g.h.used, g.lk.n)), "as many keys as values, all texts of the table among them")
    return g
def dict_is(a, d, g, IN, VAL, n, K, V, lists=True):
    ctx = a.ctx
    cv = own(a, d, DH, "_", "dict")
    cv.setf("keys", g.keys, "the list of keys"); cv.setf("vals", g.vals, "the list of values"); cv.setf("size", g.size); cv.setf("del_policy", g.pol)
    o = a.tu.off(DH, "_")
    if a.produce: cv.set(o, P, g.tab); used = ctx.fresh("used", 0, SZ); a.pred("htab", g.tab, G(IN=IN, VAL=VAL, used=used))
    else:
        p = a.pred("htab", cv.get(o, P), None)
        if p is None: ctx.fail("the dict has its table", kind="own")
        t = ctx.fresh("txt"); h = p.args; used = h.used
        if h.IN is not IN: a.fact(Iff(h.IN.get(ctx, t), IN.get(ctx, t)), "the texts with a value are as specified")
        if h.VAL is not VAL: a.fact(Implies(IN.get(ctx, t), eq(h.VAL.get(ctx, t), VAL.get(ctx, t))), "the values of the texts are as specified")
    if lists:
        list_is(a, g.keys, n, K, g.lk.pol); list_is(a, g.vals, n, V, g.lv.pol)
        a.fact(le(used, n), "all texts of the table are among the keys")

@register
class DictAdd(Contract):
    """a text not there gets the value; the key and the value are held by the lists in any case"""
    fn = "cee_dict_add"; props = ("C06", "C08")
    def pre(self, a, d, key, value):
        ctx = a.ctx; g = dict_own(a, d); s = g.s = sect(a)
        a.fact(ne(key, 0), "the key is a text"); a.fact(lt(g.lk.n, SZ - 1), "fewer than 2^31 keys")
        policy_ok(a, g.lk.pol, key, s); s2 = FS_(counted(a, s, g.lk.pol, key), s.dom); policy_ok(a, g.lv.pol, value, s2)
        return g
    def post(self, a, g, ret, d, key, value):
        ctx = a.ctx; t = TEXT(a, key); h = g.h; n = g.lk.n
        isin = h.IN.get(ctx, t)
        dict_is(a, d, g, h.IN.store(t, True), h.VAL.store(t, If(isin, h.VAL.get(ctx, t), value)), simp(add(n, 1)), g.lk.arr.store(n, key), g.lv.arr.store(n, value))
        f = FS_(counted(a, g.s, g.lk.pol, key), g.s.dom)
        a.map_is("SECT", counted(a, f, g.lv.pol, value), g.s.dom)
class FS_:
    def __init__(self, fields, dom): self.fields, self.dom = fields, dom
    def __getitem__(self, f): return self.fields[f]

@register
class DictFind(Contract):
    fn = "cee_dict_find"; props = ("C06",); views = {"strerror": Ev("strerror"), "fprintf": Ev("fprintf")}
    def pre(self, a, d, key):
        g = dict_own(a, d); a.fact(ne(key, 0), "the key is a text"); return g
    def post(self, a, g, ret, d, key):
        ctx = a.ctx; t = TEXT(a, key); h = g.h
        a.fact(eq(ret, If(h.IN.get(ctx, t), h.VAL.get(ctx, t), 0)), "the value first added under the text, NULL if there is none")
        dict_is(a, d, g, h.IN, h.VAL, g.lk.n, g.lk.arr, g.lv.arr)

def dictblock(fr, ret, o, size):
    a = fr.a; ctx = a.ctx; off = lambda f: a.tu.off(DH, f)
    base = simp(sub(ret, off("_"))); ps = []
    for f in ("keys", "vals"):
        lp = ctx.fresh(f, 4096, 1 << 47) if a.produce else a.ex.load(simp(add(base, off(f))), P)
        listblock(fr, lp, o, size, None); ps.append(lp)
    sz = a.tu.rec(DH).size
    cv = fr.block(ret, DH, "_", sz, resize_method=0, mem_block_size=sz, trace=faddr(a, "_cee_dict_trace"), n_product=2)
    cv.setf("keys", ps[0]); cv.setf("vals", ps[1]); cv.setf("del_policy", o, "the policy given"); cv.setf("size", size)
    if a.produce:
        t = ctx.fresh("tab", 4096, 1 << 47); cv.set(off("_"), P, t); empty(a, t)
    else:
        p = a.pred("htab", cv.get(off("_"), P), None)
        if p is None: ctx.fail("the dict has its table", kind="own")
        x = ctx.fresh("txt"); a.fact(Not(p.args.IN.get(ctx, x)), "no text has a value"); a.fact(eq(p.args.used, 0), "no entry")
@register
class DictMkE(Contract):
    fn = "cee_dict_mk_e"; props = ("C06", "C07")
    def f2i(self, ex, v, r): ex.ctx.assume(lt(r, 1 << 33))    # 1.25 times a size below 2^31, in single precision
    def pre(self, a, st, o, size):
        s = sect(a); sv = state_own(a, st); tail = chain_ok(a, sv)
        a.fact(lt(size, SZ), "size below 2^31"); a.fact(And(le(0, o), le(o, 2)), "valid delete policy")
        return G(s=s, st=sv, tail=tail)
    def post(self, a, g, ret, st, o, size):
        sv = state_own(a, st); keep_state(a, g.st, sv)
        fr = Fresh(a, g, sv); dictblock(fr, ret, o, size); fr.done()
@register
class DictMk(DictMkE):
    fn = "cee_dict_mk"
    def pre(self, a, st, size): return DictMkE.pre(self, a, st, RC, size)
    def post(self, a, g, ret, st, size): return DictMkE.post(self, a, g, ret, st, RC, size)

@register
class DictTrace(ObjTrace):
    """the two lists (which hold the keys and values), then the table"""
    fn = "_cee_dict_trace"; props = ("C06", "C07", "C08", "C09")
    def block(self, a, v): return dict_own(a, v, lists=False)
    def elems(self, a, g): return [(DEL, g.keys), (DEL, g.vals)]
    def block_is(self, a, g): dict_is(a, g.v, g, g.h.IN, g.h.VAL, 0, None, None, lists=False)
