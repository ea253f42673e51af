"""Merging and cloning containers (C01, C04, C05, C20): every element of the source, in the iteration's order, is added
to the destination by the container's own add.  Iteration and addition enter as recorded calls (their contracts are in
list.py, map.py and set.py)."""
from .base import *
from .jobj import JObj

V = {f: Ev(f) for f in ("cee_list_append", "cee_list_iterate", "cee_map_add_e", "cee_map_add", "cee_map_iterate", "cee_set_add", "cee_set_iterate", "cee_map_merge")}
V["cee_get_state"] = Ev("cee_get_state", nonnull=True); V["cee_set_mk_e"] = Ev("cee_set_mk_e", nonnull=True)
class MObj(JObj):
    views = V
    def only(self, a, *ok):
        for c in calls(a):
            if c.fn != "cee_get_state" and c not in ok: a.ctx.fail("nothing else is changed (calls %s)" % c.fn, kind="own")
@register
class ListAddV(MObj):
    fn = "_cee_list__add_v"; props = ("C01", "C20")
    def post(self, a, g, ret, cx, e, i):
        c = self.the(a, "add", "cee_list_append"); self.only(a, c)
        a.fact(And(eq(c.args[0], cx), eq(c.args[1], e), eq(ret, 0)), "the element is appended, the iteration goes on")
@register
class ListMerge(MObj):
    fn = "cee_list_merge"; props = ("C01", "C20")
    def post(self, a, g, ret, d, s):
        c = self.the(a, "merge", "cee_list_iterate"); self.only(a, c)
        a.fact(And(eq(c.args[0], s), eq(c.args[1], d), eq(c.args[2], faddr(a, "_cee_list__add_v"))), "every element of the source is added to the destination")
@register
class MapAddKv(MObj):
    fn = "_cee_map__add_kv"; props = ("C04", "C20")
    def pre(self, a, cx, k, v):
        cv = a.rec(cx, "_cee_map_merge_ctx", None, "context", ro=True)
        return G(d=cv.f("dest_map"), c=cv.f("merge_ctx"), m=cv.f("merge"))
    def post(self, a, g, ret, cx, k, v):
        c = self.the(a, "add", "cee_map_add_e"); self.only(a, c)
        a.fact(And(eq(c.args[0], g.d), eq(c.args[1], k), eq(c.args[2], v), eq(c.args[3], g.c), eq(c.args[4], g.m), eq(ret, 0)), "the entry is added with the merge function, the iteration goes on")
def mctx(a, c, s, cx, f):
    o = lambda n: a.ex.load(simp(add(cx, field(a.tu, "_cee_map_merge_ctx", n)[0])), P)
    c.d, c.c, c.m = o("dest_map"), o("merge_ctx"), o("merge")
@register
class MapMerge(MObj):
    fn = "cee_map_merge"; props = ("C04", "C20"); views = dict(V, cee_map_iterate=Ev("cee_map_iterate", make=mctx))
    def post(self, a, g, ret, d, s, cx, m):
        c = self.the(a, "merge", "cee_map_iterate"); self.only(a, c)
        a.fact(And(eq(c.args[0], s), eq(c.args[2], faddr(a, "_cee_map__add_kv"))), "every entry of the source is visited")
        a.fact(And(eq(c.d, d), eq(c.c, cx), eq(c.m, m)), "and added to the destination with the merge function given")
def newmap(a, c, st, o, cmp):
    a.ctx.assume(ne(c.ret, 0)); c.kp, c.vp = a.ex.load(o, U32), a.ex.load(simp(add(o, 4)), U32)
@register
class MapClone(MObj):
    fn = "cee_map_clone"; props = ("C04",); views = dict(V, cee_map_mk_e=Ev("cee_map_mk_e", make=newmap))
    H = "_cee_map_header"
    def pre(self, a, s):
        cv = a.rec(simp(sub(s, a.tu.off(self.H, "_"))), self.H, None, "map", ro=True)
        return G(cmp=cv.f("cmp"), kp=cv.f("del_policies._.key"), vp=cv.f("del_policies._.val"))
    def post(self, a, g, ret, s):
        n = self.the(a, "clone", "cee_map_mk_e"); c = self.the(a, "clone", "cee_map_merge"); self.only(a, n, c)
        a.fact(And(eq(n.kp, g.kp), eq(n.vp, g.vp), eq(n.args[2], g.cmp), eq(ret, n.ret)), "a new map of the same policies and comparison")
        a.fact(eq(n.args[0], calls(a, "cee_get_state")[0].ret), "in the same state"); a.fact(eq(calls(a, "cee_get_state")[0].args[0], s), "in the same state")
        a.fact(And(eq(c.args[0], ret), eq(c.args[1], s), eq(c.args[3], 0)), "every entry is added to it")
@register
class SetAddV(MObj):
    fn = "_cee_set__add_v"; props = ("C05",)
    def post(self, a, g, ret, cx, e):
        c = self.the(a, "add", "cee_set_add"); self.only(a, c)
        a.fact(And(eq(c.args[0], cx), eq(c.args[1], e)), "the element is added")
@register
class SetClone(MObj):
    fn = "cee_set_clone"; props = ("C05",); H = "_cee_set_header"
    def pre(self, a, s):
        cv = a.rec(simp(sub(s, a.tu.off(self.H, "_"))), self.H, None, "set", ro=True)
        return G(cmp=cv.f("cmp"), p=cv.f("del_policy"))
    def post(self, a, g, ret, s):
        n = self.the(a, "clone", "cee_set_mk_e"); c = self.the(a, "clone", "cee_set_iterate"); self.only(a, n, c)
        a.fact(And(eq(n.args[1], g.p), eq(n.args[2], g.cmp), eq(ret, n.ret)), "a new set of the same policy and comparison")
        a.fact(eq(n.args[0], calls(a, "cee_get_state")[0].ret), "in the same state"); a.fact(eq(calls(a, "cee_get_state")[0].args[0], s), "in the same state")
        a.fact(And(eq(c.args[0], s), eq(c.args[1], ret), eq(c.args[2], faddr(a, "_cee_set__add_v"))), "every element is added to it")

def valuelist(a, c, s):
    """the elements of a set, in some order"""
    ctx = a.ctx
    n = ctx.fresh("nvalues", 0, SZ - 1); ctx.assume(le(4096, c.ret))
    p = ctx.fresh("slots", 4096, 1 << 47); a.chunk(c.ret, 8, "list", ro=True).set(0, U64, p)
    cv = a.chunk(p, simp(mul(8, n)), "values", ro=True); c.arr = cv.seg(0, 8, n, U64, name="values"); c.n = n
def listsize(a, c, l):
    for v in calls(a, "cee_set_values"):
        if a.ctx.same(v.ret, l): return v.n
@register
class SetUnion(MObj):
    """a new set of the same comparison to which every element of the first and then of the second set is added; different comparisons trap"""
    fn = "cee_set_union_set"; props = ("C05",); H = "_cee_set_header"; boundable = True
    views = dict(V, cee_set_mk=Ev("cee_set_mk", nonnull=True), cee_set_values=Ev("cee_set_values", nonnull=True, make=valuelist), cee_list_size=Ev("cee_list_size", make=listsize), cee_del=Ev("cee_del"))
    loops = {("cee_set_union_set", 0): "first", ("cee_set_union_set", 1): "second"}
    def pre(self, a, st, s1, s2):
        cs = [a.rec(simp(sub(s, a.tu.off(self.H, "_"))), self.H, None, "set", ro=True).f("cmp") for s in (s1, s2)]
        return G(cs=cs, sets=(s1, s2), i=None, done=False, nd=0)
    def trap(self, a, g, st, s1, s2): return ne(g.cs[0], g.cs[1])
    def first(self, a, L): self.adding(a, L, 0)
    def second(self, a, L): self.adding(a, L, 1)
    def of(self, a, s):
        vs = calls(a, "cee_set_values")
        for v in vs:
            if v.args[0] is s or a.ctx.same(v.args[0], s): return v
        a.ctx.fail("the elements of both sets", kind="own")
    def added(self, a, adds, k, x):
        mk = self.the(a, "a new set", "cee_set_mk")
        if len(adds) <= k: a.fact(False, "every element is added")
        a.fact(And(eq(adds[k].args[0], mk.ret), eq(adds[k].args[1], x)), "every element is added to the new set")
    def adding(self, a, L, w):
        ctx = a.ctx; g = L.g; i = L.v("i"); a.log("calls"); v = self.of(a, g.sets[w]); adds = calls(a, "cee_set_add")
        a.fact(And(le(0, i), le(i, v.n)), "within the elements of set %d" % (w + 1))
        if a.produce:
            g.n0, g.i, g.nd = len(adds), i, len(calls(a, "cee_del"))
            if w == 1: g.done = True
        else:
            if w == 1 and L.entry: a.fact(g.i is not None and eq(g.i, self.of(a, g.sets[0]).n), "every element of the first set was added")
            if L.entry: a.fact(eq(i, 0), "from the first element")
            else:
                a.fact(eq(i, add(g.i, 1)), "element after element")
                if len(adds) != g.n0 + 1: ctx.fail("each element is added once")
                self.added(a, adds, g.n0, v.arr.get(ctx, g.i))
            if len(calls(a, "cee_del")) != g.nd: ctx.fail("nothing is given up before", kind="own")
    def post(self, a, g, ret, st, s1, s2):
        ctx = a.ctx; mk = self.the(a, "a new set", "cee_set_mk"); v = [self.of(a, s) for s in (s1, s2)]; adds = calls(a, "cee_set_add"); dels = calls(a, "cee_del"); sz = calls(a, "cee_list_size")
        a.fact(And(eq(mk.args[0], st), eq(mk.args[1], g.cs[0]), eq(ret, mk.ret)), "a new set of the same comparison")
        if self.bounded:
            k = 0
            for s in v:
                j = 0
                while ctx.branch(lt(j, s.n)): self.added(a, adds, k, s.arr.get(ctx, j)); k += 1; j += 1
            if k != len(adds): a.fact(False, "nothing else is added")
        else:
            if adds or not g.done: ctx.fail("element after element", kind="own")
            a.fact(eq(g.i, v[1].n), "every element of the second set was added")
        if len(dels) != 2 or any(not any(ctx.same(d.args[0], s.ret) for d in dels) for s in v): ctx.fail("the two lists are given up", kind="own")
        self.only(a, mk, *v, *adds, *dels, *sz)
