"""list.c (C01; deletion and marking C08, C09)."""
from .base import *

H = "_cee_list_header"
def list_own(a, v):
    cv = own(a, v, H, "_", "list")
    n, cap, pol, ap = cv.f("size"), cv.f("capacity"), cv.f("del_policy"), cv.f("_.a")
    a.fact(And(le(n, cap), lt(n, SZ), le(cap, 2 * SZ)), "list size within capacity")
    a.fact(And(le(0, pol), le(pol, 2)), "valid delete policy")
    ac = a.chunk(ap, mul(8, cap), "list storage")
    arr = ac.seg(0, 8, cap, U64, name="slots")
    return G(cv=cv, n=n, cap=cap, pol=pol, ap=ap, arr=arr)

def list_is(a, v, n, arr, pol):
    """v is a list with exactly the n elements arr[0..n)"""
    cv = own(a, v, H, "_", "list")
    cv.setf("size", n, "size is exact"); cv.setf("del_policy", pol)
    cap, ap = cv.f("capacity"), cv.f("_.a")
    a.fact(And(le(n, cap), le(cap, 2 * SZ)), "size never exceeds the capacity")
    ac = a.chunk(ap, mul(8, cap), "list storage")
    ac.setseg(0, 8, cap, arr, U64, valid=n, label="the list holds exactly the specified sequence")
    return G(cv=cv, cap=cap, ap=ap)

@register
class ListSize(Contract):
    fn = "cee_list_size"; props = ("C01",)
    def pre(self, a, x):
        if a.branch(eq(x, 0)): return G(z=True)
        l = list_own(a, x); return G(z=False, l=l)
    def post(self, a, g, ret, x):
        if g.z: a.fact(eq(ret, 0), "size of NULL is 0"); return
        a.fact(eq(ret, g.l.n), "cee_list_size is the number of elements")
        list_is(a, x, g.l.n, g.l.arr, g.l.pol)

@register
class ListCapacity(Contract):
    fn = "cee_list_capacity"; props = ("C01",)
    def pre(self, a, x):
        if a.branch(eq(x, 0)): return G(z=True)
        l = list_own(a, x); return G(z=False, l=l)
    def post(self, a, g, ret, x):
        if g.z: a.fact(eq(ret, 0), "capacity of NULL is 0"); return
        a.fact(eq(ret, g.l.cap), "cee_list_capacity is the number of slots")
        list_is(a, x, g.l.n, g.l.arr, g.l.pol)

@register
class ListAppend(Contract):
    fn = "cee_list_append"; props = ("C01", "C08")
    def pre(self, a, v, e):
        l = list_own(a, v); s = sect(a)
        a.fact(lt(l.n, SZ - 1), "list length below 2^31")
        policy_ok(a, l.pol, e, s)
        return G(l=l, s=s)
    def post(self, a, g, ret, v, e):
        l = g.l
        list_is(a, v, add(l.n, 1), l.arr.store(l.n, e), l.pol)
        a.map_is("SECT", counted(a, g.s, l.pol, e), g.s.dom)

@register
class ListInsert(Contract):
    fn = "cee_list_insert"; props = ("C01", "C08")
    loops = {("cee_list_insert", 0): "shift"}
    def pre(self, a, v, index, e):
        l = list_own(a, v); s = sect(a)
        a.fact(lt(l.n, SZ - 1), "list length below 2^31")
        a.fact(And(le(0, index), le(index, l.n)), "index between 0 and the size")
        policy_ok(a, l.pol, e, s)
        return G(l=l, s=s, index=index)
    def shift(self, a, L):
        l, ix = L.g.l, L.g.index
        i = L.v("i")
        a.fact(And(le(ix, i), le(i, l.n)), "i between index and size")
        cap = None
        v = L.v("v")
        cv = own(a, v, H, "_", "list")
        cv.setf("size", l.n); cv.setf("del_policy", l.pol)
        cap, ap = cv.f("capacity"), cv.f("_.a")
        a.fact(And(lt(l.n, cap), le(cap, 2 * SZ)), "there is a free slot")
        ac = a.chunk(ap, mul(8, cap), "list storage")
        # slots above i already moved up
        arr = l.arr.copyin(add(i, 1), l.arr, i, sub(l.n, i))
        ac.setseg(0, 8, cap, arr, U64, valid=If(lt(i, l.n), add(l.n, 1), l.n), label="tail above i shifted up by one")
    def post(self, a, g, ret, v, index, e):
        l = g.l
        arr = l.arr.copyin(add(index, 1), l.arr, index, sub(l.n, index)).store(index, e)
        list_is(a, v, add(l.n, 1), arr, l.pol)
        a.map_is("SECT", counted(a, g.s, l.pol, e), g.s.dom)

@register
class ListRemove(Contract):
    fn = "cee_list_remove"; props = ("C01", "C08")
    loops = {("cee_list_remove", 0): "shift"}
    def pre(self, a, v, index):
        if a.branch(eq(v, 0)): return G(z=True)
        l = list_own(a, v); s = sect(a)
        ok = And(le(0, index), lt(index, l.n))
        if not a.branch(ok): return G(z=False, l=l, s=s, ok=False)
        e = l.arr.get(a.ctx, index)
        policy_ok(a, l.pol, e, s, False)
        a.fact(Implies(eq(l.pol, DEL), eq(s["retained"].get(a.ctx, sect0(e)), 1)), "elements of a DEL list are retained by it")
        return G(z=False, l=l, s=s, ok=True, e=e, index=index)
    def shift(self, a, L):
        l, ix = L.g.l, L.g.index
        i = L.v("i")
        a.fact(And(le(ix, i), lt(i, l.n)), "i between index and the last slot")
        cv = own(a, L.v("v"), H, "_", "list")
        cv.setf("size", l.n); cv.setf("del_policy", l.pol); cv.setf("capacity", l.cap); cv.setf("_.a", l.ap)
        ac = a.chunk(l.ap, mul(8, l.cap), "list storage")
        arr = l.arr.store(ix, 0).copyin(ix, l.arr, add(ix, 1), sub(i, ix))
        ac.setseg(0, 8, l.cap, arr, U64, valid=l.n, label="slots below i shifted down by one")
    def post(self, a, g, ret, v, index):
        if g.z: a.fact(eq(ret, 0), "remove on NULL is false"); return
        l = g.l
        if not g.ok:
            a.fact(eq(ret, 0), "remove of an index outside the list is false")
            list_is(a, v, l.n, l.arr, l.pol); a.map_is("SECT", g.s.fields, g.s.dom); return
        a.fact(eq(ret, 1), "remove of a valid index is true")
        list_is(a, v, sub(l.n, 1), l.arr.copyin(index, l.arr, add(index, 1), sub(sub(l.n, 1), index)), l.pol)
        a.map_is("SECT", counted(a, g.s, l.pol, g.e, True), g.s.dom)

def listblock(fr, ret, pol, cap, rm=1):
    a = fr.a
    cv = fr.block(ret, H, "_", 88, resize_method=rm, mem_block_size=88, trace=faddr(a, "_cee_list_trace"))
    cv.setf("size", 0, "a new list is empty"); cv.setf("del_policy", pol, "the policy given"); cv.setf("capacity", cap, "the capacity asked for")
    ap = cv.f("_.a")
    ac = a.chunk(ap, mul(8, cap), "list storage")
    if a.produce: ac.seg(0, 8, cap, U64, name="slots")
    return cv
def new_list(a, g, ret, sv, pol, cap):
    fr = Fresh(a, g, sv); cv = listblock(fr, ret, pol, cap); fr.done()
    return cv

@register
class ListMkE(Contract):
    fn = "cee_list_mk_e"; props = ("C01", "C07")
    def pre(self, a, st, o, cap):
        s = sect(a); sv = state_own(a, st); tail = chain_ok(a, sv)
        a.fact(lt(cap, SZ), "capacity below 2^31")
        return G(s=s, st=sv, tail=tail)
    def post(self, a, g, ret, st, o, cap):
        sv = state_own(a, st); keep_state(a, g.st, sv)
        new_list(a, g, ret, sv, o, cap)

@register
class ListMk(ListMkE):
    fn = "cee_list_mk"
    def pre(self, a, st, cap): return ListMkE.pre(self, a, st, 0, cap)
    def post(self, a, g, ret, st, cap): return ListMkE.post(self, a, g, ret, st, RC, cap)

@register
class ListIterate(Contract):
    fn = "cee_list_iterate"; props = ("C01",)
    loops = {("cee_list_iterate", 0): "it"}
    nocall = True
    def pre(self, a, x, c, f):
        z = a.branch(eq(x, 0))
        log = a.log("call")
        R = a.array("R", I32)
        g = G(z=z, log=log, R=R, x=x, c=c, f=f)
        if not z: g.l = list_own(a, x); a.fact(lt(g.l.n, SZ - 1))
        return g
    def fnptr(self, ex, target, vals, rt):
        k = ex.ctx.logs["call"].n if "call" in ex.ctx.logs else 0
        log_append(ex.ctx, "call", fn=target, c=vals[0], e=vals[1], i=vals[2])
        return self.g.R.get(ex.ctx, k)
    def it(self, a, L):
        g = L.g; l = g.l; i = L.v("i")
        a.fact(And(le(0, i), le(i, l.n)), "i within the list")
        list_is(a, g.x, l.n, l.arr, l.pol)
        ctx = a.ctx
        a.log_is("call", g.log, i, dict(fn=lambda k: g.f, c=lambda k: g.c, e=lambda k: l.arr.get(ctx, k), i=lambda k: k))
        a.forall([g.R], lambda k: Implies(And(le(0, k), lt(k, i)), eq(g.R.get(ctx, k), 0)), "every call so far returned 0")
        if "ret" in L.fr.names: L.let(a, "ret", 0)
    def post(self, a, g, ret, x, c, f):
        ctx = a.ctx
        if g.z:
            a.fact(eq(ret, 0), "iterating NULL gives 0"); a.log_is("call", g.log, 0, {}); return
        l = g.l
        list_is(a, x, l.n, l.arr, l.pol)
        cnt = simp(sub(ctx.logs["call"].n, g.log.n))
        a.fact(And(le(0, cnt), le(cnt, l.n)), "at most one call per element")
        a.log_is("call", g.log, cnt, dict(fn=lambda k: f, c=lambda k: c, e=lambda k: l.arr.get(ctx, k), i=lambda k: k), "calls are made on the elements in order")
        a.forall([g.R], lambda k: Implies(And(le(0, k), lt(k, sub(cnt, 1))), eq(g.R.get(ctx, k), 0)), "goes on only after a zero result")
        a.fact(Implies(lt(cnt, l.n), And(gt(cnt, 0), ne(g.R.get(ctx, sub(cnt, 1)), 0))), "stops only on a non-zero result")
        a.fact(eq(ret, If(eq(cnt, 0), 0, g.R.get(ctx, sub(cnt, 1)))), "returns the last result, 0 for an empty list")

@register
class ListTrace(ObjTrace):
    fn = "_cee_list_trace"
    loops = {("_cee_list_trace", 0): "elem_loop", ("_cee_list_trace", 1): "elem_loop"}
    def block(self, a, v):
        g = list_own(a, v); a.fact(lt(g.n, SZ - 1), "list length below 2^31 - 1")
        return g
    def elems(self, a, g): return (g.n, g.pol, g.arr)
    def block_is(self, a, g): 
        r = list_is(a, g.v, g.n, g.arr, g.pol)
