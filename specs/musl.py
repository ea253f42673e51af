"""Linear search and queue links (C25: musl-lsearch.c, musl-insque.c), the table of musl_hcreate/hsearch/hdestroy (C06) and the
choice of how a block grows (C07).

The comparator is a function of the element and the key (CMP).  Two queue elements are distinct blocks; the neighbours may be
absent, the same block twice (a ring of two) or the element itself (a ring of one)."""
from .base import *
from .hash import zf, HashSpec

def CMP(a, x, key):
    r = zf(a, "CMP", x, key); a.ctx.assume(And(le(-(1 << 31), r), lt(r, 1 << 31))); return r

class Lin(Contract):
    props = ("C25",); boundable = True; nocall = True
    def arrange(self, a, key, base, nelp, grow=False):
        ctx = a.ctx; g = G(key=key, base=base)
        g.nc = a.chunk(nelp, 8, "nelp", ro=not grow); g.n = g.nc.get(0, U64); ctx.assume(lt(g.n, SZ))
        g.slots = simp(add(g.n, 1)) if grow else g.n
        c = a.chunk(base, simp(mul(8, g.slots)), "base", ro=True); g.arr = c.seg(0, 8, g.slots, P, name="elements")
        ctx.addfact([g.arr], lambda k: Implies(And(le(0, k), lt(k, g.n)), ge(g.arr.get(ctx, k), 4096)))     # elements are objects
        return g
    def fnptr(self, ex, target, vals, rt):
        ex.ctx.prove(eq(target, self.g.cmp), "the comparator given is asked")
        ex.ctx.prove(eq(vals[1], self.g.key), "the element is compared with the key")
        return CMP(A(ex, True), vals[0], vals[1])
@register
class LFind(Lin):
    """the first element equal to the key, or NULL"""
    fn = "musl_lfind"; loops = {("musl_lfind", 0): "scan"}
    def pre(self, a, key, base, nelp, width, cmp):
        ctx = a.ctx; g = self.arrange(a, key, base, nelp); g.cmp = cmp; self.first(a, g); return g
    def first(self, a, g):
        """m: the position of the first equal element, n if there is none"""
        ctx = a.ctx; m = g.m = ctx.fresh("m", 0, SZ); ctx.assume(le(m, g.n))
        ctx.addfact([g.arr], lambda k: Implies(And(le(0, k), lt(k, m)), ne(CMP(a, g.arr.get(ctx, k), g.key), 0)))
        g.hit = not a.branch(eq(m, g.n))
        if g.hit:
            e = g.e = g.arr.get(ctx, m); ctx.assume(eq(CMP(a, e, g.key), 0))
    def scan(self, a, L):
        g = L.g; i = L.v("i")
        a.fact(And(le(0, i), le(i, g.m)), "no element is passed over that is equal to the key")
    def post(self, a, g, ret, key, base, nelp, width, cmp):
        if g.hit: a.fact(eq(ret, g.e), "the first equal element is returned")
        else: a.fact(eq(ret, 0), "there is none")
@register
class LSearch(LFind):
    """the same; a key that is not there is copied behind the elements"""
    fn = "musl_lsearch"; loops = {("musl_lsearch", 0): "scan", ("musl_lfind", 0): "scan"}
    def pre(self, a, key, base, nelp, width, cmp):
        ctx = a.ctx; ctx.assume(lt(width, SZ)); g = self.arrange(a, key, base, nelp, grow=True); g.cmp = cmp; self.first(a, g)
        kc = a.chunk(key, width, "key", ro=True); g.bytes = kc.seg(0, 1, width, CH, name="keybytes")
        g.to = g.arr.get(ctx, g.n); ctx.assume(And(ge(g.to, 4096), le(g.to, 1 << 47)))
        tc = a.chunk(g.to, width, "storage"); g.was = tc.seg(0, 1, width, CH, name="storage"); return g
    def post(self, a, g, ret, key, base, nelp, width, cmp):
        n = a.chunk(nelp, 8, "nelp"); tc = a.chunk(g.to, width, "storage")
        if g.hit:
            a.fact(eq(ret, g.e), "the first equal element is returned"); n.set(0, U64, g.n, "the number stays")
            tc.setseg(0, 1, width, g.was, CH, valid=width, label="the storage stays")
        else:
            a.fact(eq(ret, g.to), "the new element is returned"); n.set(0, U64, simp(add(g.n, 1)), "one element more")
            tc.setseg(0, 1, width, g.bytes, CH, valid=width, label="the key is copied")

class Que(Contract):
    props = ("C25",); boundable = True; nocall = True
    def node(self, a, p, name): return a.chunk(p, 16, name)
@register
class Insque(Que):
    """the element is linked in behind the one given, or alone"""
    fn = "musl_insque"
    def pre(self, a, e, p):
        ctx = a.ctx; g = G(); self.node(a, e, "element"); g.alone = a.branch(eq(p, 0))
        if g.alone: return g
        c = self.node(a, p, "pred"); g.next, g.prev = c.get(0, P), c.get(8, P); g.k = "none" if a.branch(eq(g.next, 0)) else "ring" if a.branch(eq(g.next, p)) else "next"
        if g.k == "next": g.nn = self.node(a, g.next, "next").get(0, P)
        return g
    def post(self, a, g, ret, e, p):
        c = self.node(a, e, "element")
        if g.alone: c.set(0, P, 0, "nothing after it"); c.set(8, P, 0, "nothing before it"); return
        c.set(0, P, g.next, "what was after the other is after it"); c.set(8, P, p, "the other is before it")
        q = self.node(a, p, "pred"); q.set(0, P, e, "it is after the other"); q.set(8, P, e if g.k == "ring" else g.prev, "what is before the other")
        if g.k == "next": n = self.node(a, g.next, "next"); n.set(0, P, g.nn, "what is after the next one stays"); n.set(8, P, e, "it is before the next one")
@register
class Remque(Que):
    """the neighbours are linked with each other"""
    fn = "musl_remque"
    def pre(self, a, e):
        g = G(); c = self.node(a, e, "element"); g.next, g.prev = n, p = c.get(0, P), c.get(8, P); g.o = {}
        g.kn = "none" if a.branch(eq(n, 0)) else "self" if a.branch(eq(n, e)) else "n"
        g.kp = "none" if a.branch(eq(p, 0)) else "self" if a.branch(eq(p, e)) else "n" if g.kn == "n" and a.branch(eq(p, n)) else "p"
        if (g.kn == "self") != (g.kp == "self"): a.ctx.assume(False)     # a ring of one is one in both directions
        if g.kn == "n": x = self.node(a, n, "next"); g.nn, g.np = x.get(0, P), x.get(8, P)
        if g.kp == "p": x = self.node(a, p, "prev"); g.pn, g.pp = x.get(0, P), x.get(8, P)
        return g
    def post(self, a, g, ret, e):
        self.node(a, e, "element")
        if g.kn == "n":
            x = self.node(a, g.next, "next"); x.set(0, P, g.next if g.kp == "n" else g.nn, "what is after the next one"); x.set(8, P, g.prev, "what was before it is before the next one")
        if g.kp == "p":
            x = self.node(a, g.prev, "prev"); x.set(0, P, g.next, "what was after it is after the one before"); x.set(8, P, g.pp, "what is before the one before stays")

# ---- the table behind musl_hcreate and musl_hsearch
class Htab(HashSpec):
    to = None
    def the_table(self, a, p):
        r = a.ctx.find(simp(p))
        if r is None or r[0].kind != "static" or not r[0].name.endswith("htab"): a.ctx.fail("the program's table is used", kind="own")
        a.fact(eq(r[1], 0), "the program's table is used")
    def call(self, a):
        cs = calls(a)
        if len(cs) != 1: a.ctx.fail("one operation on the table", kind="own")
        return cs[0]
@register
class HCreate(Htab):
    fn = "musl_hcreate"; views = {"musl_hcreate_r": Ev("musl_hcreate_r")}; nocall = True
    def pre(self, a, n): return G()
    def post(self, a, g, ret, n):
        c = self.call(a); a.fact(And(eq(c.args[0], n), eq(ret, c.ret)), "the table is made for that many entries"); self.the_table(a, c.args[1])
@register
class HDestroy(Htab):
    fn = "musl_hdestroy"; views = {"musl_hdestroy_r": Ev("musl_hdestroy_r")}; nocall = True
    def pre(self, a): return G()
    def post(self, a, g, ret): self.the_table(a, self.call(a).args[0])
def entry(a, c, item, action, retval, htab): c.e = a.ctx.fresh("entry", 0, 1 << 47); a.ex.store(retval, P, c.e)
@register
class HSearchG(Htab):
    fn = "musl_hsearch"; views = {"musl_hsearch_r": Ev("musl_hsearch_r", make=entry)}; nocall = True
    def pre(self, a, item, action): return G(k=item.cells[0][2], d=item.cells[8][2])
    def post(self, a, g, ret, item, action):
        c = self.call(a); i = c.args[0]
        a.fact(And(eq(i.cells[0][2], g.k), eq(i.cells[8][2], g.d), eq(c.args[1], action)), "the item is looked up or entered"); self.the_table(a, c.args[3]); a.fact(eq(ret, c.e), "the entry found or made is returned")

# ---- how a block grows
class Use(Contract):
    """a block that can be resized is resized that way; no other changes"""
    props = ("C07",); nocall = True; how = None
    def pre(self, a, p):
        s = sect(a); a.fact(s.dom.get(a.ctx, sect0(p)), "a live block"); return G(s=s)
    def post(self, a, g, ret, p):
        x = sect0(p); o = g.s["resize_method"]; f = dict(g.s.fields); f["resize_method"] = o.store(x, If(eq(o.get(a.ctx, x), 0), 0, self.how)); a.map_is("SECT", f, g.s.dom)
@register
class UseRealloc(Use): fn = "cee_use_realloc"; how = 2
@register
class UseMalloc(Use): fn = "cee_use_malloc"; how = 1
