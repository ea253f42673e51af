"""Stack (C02), boxed values (C10), products and wrappers (C11), with their trace functions (C07-C09)."""
import re
from .base import *

class FS:
    """header fields after some updates"""
    def __init__(self, fields, dom): self.fields, self.dom = fields, dom
    def __getitem__(self, f): return self.fields[f]

# ------------------------------------------------------------------------------------------------ stack
SH = "_cee_stack_header"
U64MAX = (1 << 64) - 1
def topof(n): return If(eq(n, 0), U64MAX, sub(n, 1))

def stack_own(a, v):
    off = a.tu.off(SH, "_")
    cv = own(a, v, SH, "_", "stack", size=a.fresh("stacksize"))
    n, cap, pol = cv.f("used"), cv.f("capacity"), cv.f("del_policy")
    a.fact(lt(cap, SZ), "capacity below 2^31")
    a.fact(le(n, cap), "no more elements than the capacity")
    a.fact(eq(cv.f("top"), topof(n)), "top is the index of the last element")
    a.fact(And(le(0, pol), le(pol, 2)), "valid delete policy")
    sz = simp(add(off, mul(8, cap))); a.ctx.assume(eq(cv.ch.size, sz)); cv.ch.size = sz
    arr = cv.seg(off, 8, cap, U64, name="slots")
    return G(cv=cv, n=n, cap=cap, pol=pol, arr=arr)

def stack_get(a, v):
    if a.produce: return stack_own(a, v)
    off = a.tu.off(SH, "_")
    cv = own(a, v, SH, "_", "stack", size=False)
    n, cap, pol = cv.f("used"), cv.f("capacity"), cv.f("del_policy")
    a.fact(lt(cap, SZ), "capacity below 2^31")
    a.fact(le(n, cap), "no more elements than the capacity")
    a.fact(eq(cv.f("top"), topof(n)), "top is the index of the last element")
    a.fact(And(le(0, pol), le(pol, 2)), "valid delete policy")
    a.fact(eq(cv.ch.size, add(off, mul(8, cap))), "the block has room for capacity elements")
    arr = cv.seg(off, 8, cap, U64, name="slots")
    return G(cv=cv, n=n, cap=cap, pol=pol, arr=arr)

def stack_is(a, v, n, arr, pol, cap):
    off = a.tu.off(SH, "_")
    cv = own(a, v, SH, "_", "stack", size=simp(add(off, mul(8, cap))))
    cv.setf("used", n, "number of elements"); cv.setf("capacity", cap, "capacity unchanged"); cv.setf("del_policy", pol)
    cv.setf("top", topof(n), "top is the index of the last element")
    cv.setseg(off, 8, cap, arr, U64, valid=n, label="the stack holds exactly the specified elements")
    return cv

class StackObs(Contract):
    props = ("C02",)
    def pre(self, a, x): return G(l=stack_get(a, x))
    def value(self, g): pass
    def post(self, a, g, ret, x):
        l = g.l
        a.fact(eq(ret, self.value(l)), "the result agrees with the contents")
        stack_is(a, x, l.n, l.arr, l.pol, l.cap)
@register
class StackSize(StackObs):
    fn = "cee_stack_size"
    def value(self, l): return l.n
@register
class StackEmpty(StackObs):
    fn = "cee_stack_empty"
    def value(self, l): return If(eq(l.n, 0), 1, 0)
@register
class StackFull(StackObs):
    fn = "cee_stack_full"
    def value(self, l): return If(eq(l.n, l.cap), 1, 0)
@register
class StackTop(Contract):
    fn = "cee_stack_top"; props = ("C02",)
    def pre(self, a, v, k): return G(l=stack_get(a, v))
    def post(self, a, g, ret, v, k):
        l = g.l
        stack_is(a, v, l.n, l.arr, l.pol, l.cap)
        if a.branch(lt(k, l.n)): a.fact(eq(ret, l.arr.get(a.ctx, simp(sub(sub(l.n, 1), k)))), "the k-th element from the top")
        else: a.fact(eq(ret, 0), "NULL when there is no k-th element")
@register
class StackPush(Contract):
    fn = "cee_stack_push"; props = ("C02", "C08")
    def pre(self, a, v, e):
        l = stack_get(a, v); s = sect(a)
        policy_ok(a, l.pol, e, s)
        return G(l=l, s=s)
    def post(self, a, g, ret, v, e):
        l = g.l
        if a.branch(lt(l.n, l.cap)):
            a.fact(eq(ret, 1), "push on a stack that is not full returns 1")
            stack_is(a, v, simp(add(l.n, 1)), l.arr.store(l.n, e), l.pol, l.cap)
            a.map_is("SECT", counted(a, g.s, l.pol, e), g.s.dom)
        else:
            a.fact(eq(ret, 0), "push on a full stack returns 0")
            stack_is(a, v, l.n, l.arr, l.pol, l.cap)
            a.map_is("SECT", g.s.fields, g.s.dom, "a full stack changes nothing")
@register
class StackPop(Contract):
    fn = "cee_stack_pop"; props = ("C02", "C08")
    def pre(self, a, v):
        l = stack_get(a, v); s = sect(a)
        if a.branch(eq(l.n, 0)): return G(l=l, s=s, z=True)
        e = l.arr.get(a.ctx, simp(sub(l.n, 1)))
        policy_ok(a, l.pol, e, s, False)
        a.fact(Implies(eq(l.pol, DEL), eq(s["retained"].get(a.ctx, sect0(e)), 1)), "elements of a DEL stack are retained by it")
        return G(l=l, s=s, z=False, e=e)
    def post(self, a, g, ret, v):
        l = g.l
        if g.z:
            a.fact(eq(ret, 0), "pop of an empty stack is NULL")
            stack_is(a, v, 0, l.arr, l.pol, l.cap)
            a.map_is("SECT", g.s.fields, g.s.dom); return
        a.fact(eq(ret, g.e), "pop returns the most recently pushed element")
        stack_is(a, v, simp(sub(l.n, 1)), l.arr, l.pol, l.cap)
        a.map_is("SECT", counted(a, g.s, l.pol, g.e, True), g.s.dom)
@register
class StackMkE(Contract):
    fn = "cee_stack_mk_e"; props = ("C02", "C07")
    def pre(self, a, st, o, n):
        s = sect(a); sv = state_own(a, st); tail = chain_ok(a, sv)
        a.fact(lt(n, SZ), "capacity below 2^31"); return G(s=s, st=sv, tail=tail)
    def post(self, a, g, ret, st, o, n):
        sv = state_own(a, st); keep_state(a, g.st, sv)
        off = a.tu.off(SH, "_")
        size = simp(add(off, mul(8, n)))
        cv = newblock(a, g, ret, SH, "_", sv, size, mem_block_size=size, trace=faddr(a, "_cee_stack_trace"))
        cv.setf("used", 0, "a new stack is empty"); cv.setf("capacity", n, "the capacity given"); cv.setf("del_policy", o, "the policy given")
        cv.setf("top", U64MAX, "top is before the first slot")
        if a.produce: cv.seg(off, 8, n, U64, name="slots")
@register
class StackMk(StackMkE):
    fn = "cee_stack_mk"
    def pre(self, a, st, n): return StackMkE.pre(self, a, st, 0, n)
    def post(self, a, g, ret, st, n): return StackMkE.post(self, a, g, ret, st, RC, n)
@register
class StackTrace(ObjTrace):
    fn = "_cee_stack_trace"
    loops = {("_cee_stack_trace", 0): "elem_loop", ("_cee_stack_trace", 1): "elem_loop"}
    def block(self, a, v): return stack_get(a, v)
    def elems(self, a, g): return (g.n, g.pol, g.arr)
    def block_is(self, a, g): stack_is(a, g.v, g.n, g.arr, g.pol, g.cap)

# ------------------------------------------------------------------------------------------------ products
def product(n, name):
    H = "_cee_%s_header" % name
    def own_it(a, v):
        cv = own(a, v, H, "_", name)
        return cv
    class MkE(Contract):
        fn = "cee_%s_mk_e" % name; props = ("C11", "C07", "C08")
        def pre(self, a, st, o, *vs):
            s = sect(a); sv = state_own(a, st); tail = chain_ok(a, sv)
            oc = a.chunk(o, 4 * n, "policies", ro=True)
            pols = [oc.get(4 * i, U32) for i in range(n)]
            cur = s
            for p, v in zip(pols, vs):
                a.fact(And(le(0, p), le(p, 2)), "valid delete policy")
                policy_ok(a, p, v, cur)
                cur = FS(counted(a, cur, p, v), cur.dom)
            return G(s=cur, s0=s, st=sv, tail=tail, pols=pols, o=o)
        def post(self, a, g, ret, st, o, *vs):
            sv = state_own(a, st); keep_state(a, g.st, sv)
            self.result(a, g, ret, sv, vs)
        def result(self, a, g, ret, sv, vs):
            sz = a.tu.rec(H).size
            cv = newblock(a, g, ret, H, "_", sv, sz, mem_block_size=sz, trace=faddr(a, "_cee_%s_trace" % name), n_product=None)
            for i in range(n):
                cv.setf("_[%d]" % i, vs[i], "field %d is argument %d" % (i, i))
                cv.setf("del_policies[%d]" % i, g.pols[i], "policy %d is the one given" % i)
    MkE.__name__ = name.capitalize() + "MkE"
    class Mk(MkE):
        fn = "cee_%s_mk" % name
        def pre(self, a, st, *vs):
            s = sect(a); sv = state_own(a, st); tail = chain_ok(a, sv); cur = s
            for v in vs:
                policy_ok(a, RC, v, cur); cur = FS(counted(a, cur, RC, v), cur.dom)
            return G(s=cur, s0=s, st=sv, tail=tail, pols=[RC] * n)
        def post(self, a, g, ret, st, *vs):
            sv = state_own(a, st); keep_state(a, g.st, sv)
            self.result(a, g, ret, sv, vs)
    Mk.__name__ = name.capitalize() + "Mk"
    class Trace(ObjTrace):
        fn = "_cee_%s_trace" % name
        def block(self, a, v):
            cv = own_it(a, v)
            g = G(cv=cv, xs=[cv.f("_[%d]" % i) for i in range(n)], ps=[cv.f("del_policies[%d]" % i) for i in range(n)])
            for p in g.ps: a.fact(And(le(0, p), le(p, 2)), "valid delete policy")
            return g
        def elems(self, a, g): return list(zip(g.ps, g.xs))
        def block_is(self, a, g):
            cv = own_it(a, g.v)
            for i in range(n):
                cv.setf("_[%d]" % i, g.xs[i]); cv.setf("del_policies[%d]" % i, g.ps[i])
    Trace.__name__ = name.capitalize() + "Trace"
    register(MkE)
    if name != "quadruple": register(Mk)
    register(Trace)
    return MkE, Mk, Trace
TupleMkE, TupleMk, TupleTrace = product(2, "tuple")
TripleMkE, TripleMk, TripleTrace = product(3, "triple")
QuadMkE, QuadMk, QuadTrace = product(4, "quadruple")

@register
class TupleSetPolicy(Contract):
    fn = "cee_tuple_update_del_policy"; props = ("C11",)
    def pre(self, a, t, i, v):
        cv = own(a, t, "_cee_tuple_header", "_", "tuple")
        a.fact(And(le(0, i), lt(i, 2)), "index 0 or 1"); a.fact(And(le(0, v), le(v, 2)), "valid policy")
        arr = cv.seg(0, 4, 2, U32, name="policies")
        return G(xs=[cv.f("_[0]"), cv.f("_[1]")], arr=arr)
    def post(self, a, g, ret, t, i, v):
        cv = own(a, t, "_cee_tuple_header", "_", "tuple")
        for k in range(2):
            cv.setf("_[%d]" % k, g.xs[k], "elements unchanged")
        cv.setseg(0, 4, 2, g.arr.store(i, v), U32, label="only the policy at the index changes")

NH = "_cee_n_tuple_header"
def ntuple_own(a, v):
    cv = own(a, v, NH, "_", "n_tuple"); s = sect(a)
    n = s["n_product"].get(a.ctx, cv.sect)
    a.fact(le(n, 16), "at most 16 elements")
    off = a.tu.off(NH, "_")
    arr = cv.seg(off, 8, 16, U64, name="items"); pol = cv.seg(0, 4, 16, U32, name="policies")
    a.forall([pol], lambda k: Implies(And(le(0, k), lt(k, n)), eq(pol.get(a.ctx, k), RC)), "n-tuples count references")
    return G(cv=cv, n=n, pol=RC, arr=arr, pols=pol)
@register
class NTupleTrace(ObjTrace):
    fn = "_cee_n_tuple_trace"
    loops = {("_cee_n_tuple_trace", 0): "elem_loop", ("_cee_n_tuple_trace", 1): "elem_loop"}
    def block(self, a, v): return ntuple_own(a, v)
    def elems(self, a, g): return (g.n, g.pol, g.arr)
    def block_is(self, a, g):
        cv = own(a, g.v, NH, "_", "n_tuple")
        off = a.tu.off(NH, "_")
        cv.setseg(off, 8, 16, g.arr, U64, label="elements unchanged"); cv.setseg(0, 4, 16, g.pols, U32, label="policies unchanged")
    def elem_loop(self, a, L):
        r = ObjTrace.elem_loop(self, a, L)
        # n_product belongs to the header: it does not change while elements are deleted
        return r

# ------------------------------------------------------------------------------------------------ tagged, closure, env
TH = "_cee_tagged_header"
def taggedblock(fr, ret, o, tag, p):
    a = fr.a
    sz = a.tu.rec(TH).size
    cv = fr.block(ret, TH, "_", sz, mem_block_size=sz, trace=faddr(a, "_cee_tagged_trace"), n_product=None)
    cv.setf("_.tag", tag, "the tag given"); cv.set(a.tu.off(TH, "_") + 8, U64, p, "the pointer given")
    cv.setf("del_policy", o, "the policy given")
    return cv

@register
class TaggedMkE(Contract):
    fn = "cee_tagged_mk_e"; props = ("C11", "C07", "C08")
    def pre(self, a, st, o, tag, p):
        s = sect(a); sv = state_own(a, st); tail = chain_ok(a, sv)
        a.fact(And(le(0, o), le(o, 2)), "valid delete policy")
        cur = s
        if a.branch(ne(p, 0)):
            policy_ok(a, o, p, s); cur = FS(counted(a, s, o, p), s.dom)
        return G(s=cur, st=sv, tail=tail)
    def post(self, a, g, ret, st, o, tag, p):
        sv = state_own(a, st); keep_state(a, g.st, sv)
        fr = Fresh(a, g, sv); taggedblock(fr, ret, o, tag, p); fr.done()
@register
class TaggedMk(TaggedMkE):
    fn = "cee_tagged_mk"
    def pre(self, a, st, tag, p): return TaggedMkE.pre(self, a, st, RC, tag, p)
    def post(self, a, g, ret, st, tag, p): return TaggedMkE.post(self, a, g, ret, st, RC, tag, p)
@register
class TaggedTrace(ObjTrace):
    fn = "_cee_tagged_trace"; H = TH
    def block(self, a, v):
        cv = own(a, v, self.H, "_", "tagged")
        o = a.tu.off(self.H, "_") + 8
        g = G(cv=cv, tag=cv.f("_.tag"), x=cv.get(o, U64), pol=cv.f("del_policy"))
        a.fact(And(le(0, g.pol), le(g.pol, 2)), "valid delete policy")
        return g
    def elems(self, a, g): return [(g.pol, g.x)]
    def block_is(self, a, g):
        cv = own(a, g.v, self.H, "_", "tagged")
        cv.setf("_.tag", g.tag); cv.set(a.tu.off(self.H, "_") + 8, U64, g.x); cv.setf("del_policy", g.pol)
@register
class ClosureMk(Contract):
    fn = "cee_closure_mk"; props = ("C11", "C07"); H = "_cee_closure_header"
    def pre(self, a, st, env, fun):
        s = sect(a); sv = state_own(a, st); tail = chain_ok(a, sv)
        return G(s=s, st=sv, tail=tail)
    def post(self, a, g, ret, st, env, fun):
        sv = state_own(a, st); keep_state(a, g.st, sv)
        sz = a.tu.rec(self.H).size
        cv = newblock(a, g, ret, self.H, "_", sv, sz, mem_block_size=sz, trace=faddr(a, "_cee_closure_trace"), n_product=None)
        cv.setf("_.env", env, "the environment given"); cv.setf("_.vfun", fun, "the function given")
@register
class ClosureTrace(ObjTrace):
    fn = "_cee_closure_trace"; H = "_cee_closure_header"
    def block(self, a, v):
        cv = own(a, v, self.H, "_", "closure"); return G(cv=cv, env=cv.f("_.env"), fun=cv.f("_.vfun"))
    def elems(self, a, g): return [(NOOP, g.env)]
    def block_is(self, a, g):
        cv = own(a, g.v, self.H, "_", "closure"); cv.setf("_.env", g.env); cv.setf("_.vfun", g.fun)
@register
class ClosureCall(Contract):
    fn = "cee_closure_call"; props = ("C11",); nocall = True
    def pre(self, a, st, c, n, va):
        cv = a.chunk(c, 16, "closure")
        r = a.int("result"); a.fact(And(le(0, r), le(r, U64MAX)))
        return G(env=cv.get(0, U64), fun=cv.get(8, U64), r=r, log=a.log("call"))
    def fnptr(self, ex, target, vals, rt):
        ok = len(vals) == 4 and getattr(vals[3], "state", None) == "ready"
        log_append(ex.ctx, "call", fn=target, st=vals[0], env=vals[1], n=vals[2], va=int(ok and vals[3].pos == 0))
        return self.g.r
    def post(self, a, g, ret, st, c, n, va):
        a.log_is("call", g.log, 1, dict(fn=lambda k: g.fun, st=lambda k: st, env=lambda k: g.env, n=lambda k: n, va=lambda k: 1), "the closure's function is called once with its environment and the given arguments")
        a.fact(eq(ret, g.r), "the result of the function is returned")
        cv = a.chunk(c, 16, "closure"); cv.set(0, U64, g.env); cv.set(8, U64, g.fun)
@register
class EnvMkE(Contract):
    fn = "cee_env_mk_e"; props = ("C11", "C07", "C08"); H = "_cee_env_header"
    def pre(self, a, st, dp, outer, vars_):
        dc = a.chunk(dp, 8, "policies", ro=True)
        return self.pre2(a, st, [dc.get(0, U32), dc.get(4, U32)], outer, vars_)
    def pre2(self, a, st, ps, outer, vars_):
        s = sect(a); sv = state_own(a, st); tail = chain_ok(a, sv); cur = s
        for p, v in zip(ps, (outer, vars_)):
            a.fact(And(le(0, p), le(p, 2)), "valid delete policy")
            if a.branch(ne(v, 0)):
                policy_ok(a, p, v, cur); cur = FS(counted(a, cur, p, v), cur.dom)
        return G(s=cur, st=sv, tail=tail, ps=ps)
    def post(self, a, g, ret, st, dp, outer, vars_):
        self.post2(a, g, ret, st, outer, vars_)
    def post2(self, a, g, ret, st, outer, vars_):
        sv = state_own(a, st); keep_state(a, g.st, sv)
        sz = a.tu.rec(self.H).size
        cv = newblock(a, g, ret, self.H, "_", sv, sz, mem_block_size=sz, trace=faddr(a, "_cee_env_trace"), n_product=None)
        cv.setf("_.outer", outer, "the outer environment given"); cv.setf("_.vars", vars_, "the variables given")
        cv.setf("env_dp", g.ps[0], "the policies given"); cv.setf("vars_dp", g.ps[1], "the policies given")
@register
class EnvMk(EnvMkE):
    fn = "cee_env_mk"
    def pre(self, a, st, outer, vars_): return self.pre2(a, st, [RC, RC], outer, vars_)
    def post(self, a, g, ret, st, outer, vars_): return self.post2(a, g, ret, st, outer, vars_)
@register
class EnvTrace(ObjTrace):
    fn = "_cee_env_trace"; H = "_cee_env_header"
    def block(self, a, v):
        cv = own(a, v, self.H, "_", "env")
        g = G(cv=cv, outer=cv.f("_.outer"), vars=cv.f("_.vars"), p0=cv.f("env_dp"), p1=cv.f("vars_dp"))
        a.fact(And(le(0, g.p0), le(g.p0, 2), le(0, g.p1), le(g.p1, 2)), "valid delete policies")
        return g
    def elems(self, a, g): return [(g.p0, g.outer), (g.p1, g.vars)]
    def block_is(self, a, g):
        cv = own(a, g.v, self.H, "_", "env")
        cv.setf("_.outer", g.outer); cv.setf("_.vars", g.vars); cv.setf("env_dp", g.p0); cv.setf("vars_dp", g.p1)

# ------------------------------------------------------------------------------------------------ block
BH = "_cee_block_header"
@register
class BlockNZ(Contract):
    fn = "cee_block_mk_nonzero"; props = ("C11", "C07")
    zero = False
    def blockblock(self, fr, ret, n):
        a = fr.a
        off = a.tu.off(BH, "_"); size = simp(add(a.tu.rec(BH).size, n))
        cv = fr.block(ret, BH, "_", size, resize_method=1, mem_block_size=size, trace=faddr(a, "_cee_block_trace"), cmp=None)
        cv.setf("capacity", n, "the size asked for"); cv.setf("del_policy", RC)
        arr = cv.seg(off, 1, simp(sub(size, off)), CH, name="bytes")
        return cv, arr
    def pre(self, a, st, n):
        s = sect(a); sv = state_own(a, st); tail = chain_ok(a, sv)
        a.fact(lt(n, BIG), "size below 2^40"); return G(s=s, st=sv, tail=tail)
    def post(self, a, g, ret, st, n):
        sv = state_own(a, st); keep_state(a, g.st, sv)
        fr = Fresh(a, g, sv); cv, arr = self.blockblock(fr, ret, n); fr.done()
        if self.zero:
            if a.produce: a.forall([arr], lambda k: Implies(And(le(0, k), lt(k, n)), eq(arr.get(a.ctx, k), 0)))
            else:
                k = a.ctx.fresh("k")
                a.fact(Implies(And(le(0, k), lt(k, n)), eq(arr.get(a.ctx, k), 0)), "the block's bytes are zero")
@register
class BlockMk(BlockNZ):
    fn = "cee_block_mk"; zero = True
@register
class BlockSize(Contract):
    fn = "cee_block_size"; props = ("C11",)
    def pre(self, a, b):
        cv = own(a, b, BH, "_", "block"); return G(n=cv.f("capacity"), pol=cv.f("del_policy"))
    def post(self, a, g, ret, b):
        a.fact(eq(ret, g.n), "the size given at construction")
        cv = own(a, b, BH, "_", "block"); cv.setf("capacity", g.n); cv.setf("del_policy", g.pol)

class LeafTrace(ObjTrace):
    H = None; F = "_"
    def block(self, a, v):
        cv = own(a, v, self.H, self.F, "block"); return G(cv=cv)
    def block_is(self, a, g): own(a, g.v, self.H, self.F, "block")
@register
class BlockTrace(LeafTrace):
    fn = "_cee_block_trace"; H = BH
@register
class BoxedTrace(LeafTrace):
    fn = "_cee_boxed_trace"; H = "_cee_boxed_header"
@register
class StrTrace(LeafTrace):
    fn = "_cee_str_trace"; H = "_cee_str_header"

# ------------------------------------------------------------------------------------------------ singleton
@register
class SingletonInit(Contract):
    fn = "cee_singleton_init"; props = ("C11",); H = "_cee_singleton_header"; nocall = True
    def pre(self, a, p, tag, val):
        a.rec(p, self.H, None, "singleton", kind="static"); return G()
    def post(self, a, g, ret, p, tag, val):
        off = a.tu.off(self.H, "_")
        cv = a.rec(p, self.H, None, "singleton")
        a.fact(eq(ret, add(p, off)), "the object itself is returned")
        cv.setf("_", tag, "the tag given"); cv.setf("val", val, "the value given")
        for f in SECTF:
            if f == "trace": cv.setf("cs.trace", faddr(a, "_cee_singleton_noop"), "deleting it does nothing")
            else: cv.setf("cs." + f, 0, "header field %s is initialised" % f)

# ------------------------------------------------------------------------------------------------ boxed
XH = "_cee_boxed_header"
KINDS = dict(double=("f64", F64), float=("f32", ("flt", 4)), u64=("u64", U64), u32=("u32", U32), u16=("u16", U16), u8=("u8", U8),
             i64=("i64", I64), i32=("i32", I32), i16=("i16", ("int", 2, True)), i8=("i8", ("int", 1, True)))
def enumv(a, name):
    return a.tu.enumn[name]
FMT = dict(double="%lg", float="%g", u64="%lu", u32="%u", u16="%u", u8="%u", i64="%ld", i32="%d", i16="%d", i8="%d")
def boxblock(fr, ret, tn, ty, d):
    a = fr.a; sz = a.tu.rec(XH).size
    cv = fr.block(ret, XH, "_", sz, mem_block_size=sz, trace=faddr(a, "_cee_boxed_trace"), cmp=None, n_product=None)
    cv.setf("type", enumv(a, "cee_primitive_" + tn), "the box is of type %s" % tn)
    cv.set(a.tu.off(XH, "_"), ty, d, "the box holds exactly the value given")
    return cv
def boxed_cls(k, tn, ty):
    class From(Contract):
        fn = "cee_boxed_from_" + k; props = ("C10", "C07")
        def pre(self, a, st, d):
            s = sect(a); sv = state_own(a, st); tail = chain_ok(a, sv); return G(s=s, st=sv, tail=tail)
        def post(self, a, g, ret, st, d):
            sv = state_own(a, st); keep_state(a, g.st, sv)
            fr = Fresh(a, g, sv); boxblock(fr, ret, tn, ty, d); fr.done()
    From.__name__ = "BoxedFrom_" + k
    class To(Contract):
        fn = "cee_boxed_to_" + k; props = ("C10",)
        def pre(self, a, x):
            cv = own(a, x, XH, "_", "boxed")
            t = cv.f("type"); ok = eq(t, enumv(a, "cee_primitive_" + tn))
            g = G(t=t, ok=ok)
            if a.branch(ok): g.v = cv.get(a.tu.off(XH, "_"), ty)
            return g
        def trap(self, a, g, x): return Not(g.ok)
        def post(self, a, g, ret, x):
            cv = own(a, x, XH, "_", "boxed"); cv.setf("type", g.t)
            cv.set(a.tu.off(XH, "_"), ty, g.v); a.fact(eq(ret, g.v), "exactly the stored value is returned")
    To.__name__ = "BoxedTo_" + k
    register(From); register(To)
for k, (tn, ty) in KINDS.items(): boxed_cls(k, tn, ty)

@register
class BoxedSnprint(Contract):
    """the text is the one printf gives for the value and the conversion of the box's own type, cut to the buffer; doubles: six digits if they read back as the same value, else seventeen"""
    fn = "cee_boxed_snprint"; props = ("C10",)
    def text(self, ctx, conv, x):
        f = FnBase(ctx, "number_" + conv, x); n = f.length(ctx, 1, 30)
        ctx.addfact([f], lambda t: Implies(And(le(0, t), lt(t, n)), ne(f.get(ctx, t), 0)))
        return f, n
    def format(self, ex, fmt, v):
        r = ex.ctx.find(simp(fmt)); t = getattr(r[0], "text", None) if r else None
        if t is None or v.pack.args is None or len(v.pack.args) != v.pos + 1: return None
        s = "".join(chr(c & 255) for c in t[cval(simp(r[1])) or 0:] if c); x = getattr(v.pack.args[v.pos], "v", v.pack.args[v.pos])
        m = re.fullmatch(r"%(hh|h|ll|l|)([diu])", s)
        if m: return self.text(ex.ctx, "int", ex.wrap(x, ("int", {"hh": 1, "h": 2, "": 4}.get(m[1], 8), m[2] != "u")))
        m = re.fullmatch(r"%(?:\.(\d+))?l?g", s)
        if m: ex.ctx.ghosts["number"] = (m[1] or "6", x); return self.text(ex.ctx, "g" + (m[1] or "6"), x)
        return None
    def back(self, ctx, d, x):
        r = z3.Function("read_g" + d, INT, INT)(T(x)); ctx.keep.append(r); return r
    def builtin(self, ex, name):
        if name != "strtod" or "number" not in ex.ctx.ghosts: return None
        def strtod(n, args):
            for q in args: ex.ev(q)
            return self.back(ex.ctx, *ex.ctx.ghosts["number"])
        return strtod
    def pre(self, a, buf, size, x):
        cv = own(a, x, XH, "_", "boxed"); g = G(t=cv.f("type"), kind=None, v=None)
        for k, (tn, ty) in KINDS.items():
            if g.kind is None and a.branch(eq(g.t, enumv(a, "cee_primitive_" + tn))): g.kind, g.ty = k, ty; g.v = cv.get(a.tu.off(XH, "_"), ty)
        g.z = a.branch(eq(size, 0))
        if not g.z: a.fact(lt(size, SZ), "size below 2^31"); a.chunk(buf, size, "buffer").seg(0, 1, size, CH, name="buffer")
        return g
    def trap(self, a, g, buf, size, x): return g.kind is None
    def post(self, a, g, ret, buf, size, x):
        ctx = a.ctx; cv = own(a, x, XH, "_", "boxed"); cv.setf("type", g.t); cv.set(a.tu.off(XH, "_"), g.ty, g.v)
        if g.kind == "double":
            same = a.branch(z3.Function("feq", INT, INT, z3.BoolSort())(T(self.back(ctx, "6", g.v)), T(g.v))); f, n = self.text(ctx, "g6" if same else "g17", g.v)
        elif g.kind == "float": f, n = self.text(ctx, "g6", z3.Function("fcast_4_8", INT, INT)(T(g.v)))
        else: f, n = self.text(ctx, "int", g.v)
        a.fact(eq(ret, n), "the length of the whole text is returned")
        if g.z: return
        w = simp(If(lt(n, size), n, sub(size, 1))); arr = a.chunk(buf, size, "buffer").seg(0, 1, size, CH, name="buffer")
        a.fact(eq(arr.get(ctx, w), 0), "the text is terminated within the buffer")
        k = ctx.fresh("k"); a.fact(Implies(And(le(0, k), lt(k, w)), eq(arr.get(ctx, k), f.get(ctx, k))), "the text is that of the value in its own conversion")

# ------------------------------------------------------------------------------------------------ constructors with a variable number of arguments or a callback
@register
class NTupleMk(Contract):
    """up to 16 elements, each counted by reference; more trap"""
    fn = "cee_n_tuple_mk"; props = ("C11", "C07", "C08"); nocall = True; inline = ("cee_n_tuple_v",); boundable = True
    loops = {("cee_n_tuple_mk", 0): "fill"}
    views = dict(cee_incr_indegree=Ev("cee_incr_indegree"))
    def pre(self, a, st, n, va):
        ctx = a.ctx
        s = sect(a); sv = state_own(a, st); tail = chain_ok(a, sv); xs = []
        a.fact(lt(n, SZ), "fewer than 2^31 elements")
        if a.branch(le(n, 16)):
            for k in range(17):
                if k == 16 or a.branch(eq(n, k)): break
            ctx.assume(eq(n, k))
            xs = [ctx.fresh("item%d" % i, 0, U64MAX) for i in range(k)]
        def get(ex, pos, ty):
            p = cval(simp(pos)) if not isinstance(pos, int) else pos
            if p is None or p >= len(xs): ex.ctx.fail("takes no more arguments than given")
            return xs[p]
        va.get = get
        return G(s=s, st=sv, tail=tail, xs=xs, n=n)
    def trap(self, a, g, st, n, va): return gt(n, 16)
    def fill(self, a, L):
        ctx = a.ctx; n = self.g.n; i = L.v("i"); o = L.v("o")
        ch = a.chunk(o, simp(mul(4, n)), "policies", kind="heap")
        a.fact(And(le(0, i), le(i, n)), "a policy per element")
        arr = ch.seg(0, 4, n, U32, name="policies")
        a.forall([arr], lambda k: Implies(And(le(0, k), lt(k, i)), eq(arr.get(ctx, k), RC)), "each element is counted by reference")
    def post(self, a, g, ret, st, n, va):
        sv = state_own(a, st); keep_state(a, g.st, sv)
        sz = a.tu.rec(NH).size; k = len(g.xs)
        cv = newblock(a, g, ret, NH, "_", sv, sz, mem_block_size=sz, trace=faddr(a, "_cee_n_tuple_trace"), n_product=k)
        for i in range(k):
            cv.setf("_[%d]" % i, g.xs[i], "element %d is argument %d" % (i, i))
            cv.setf("del_policies[%d]" % i, RC, "each element is counted by reference")
        cs = calls(a, "cee_incr_indegree")
        if len(cs) != k: a.ctx.fail("each element is counted once", kind="own")
        for x, c in zip(g.xs, cs):
            a.fact(And(eq(c.args[0], RC), eq(c.args[1], x)), "each element is counted once, by reference")

@register
class BlockMkE(BlockNZ):
    """the block is handed once to the initialiser with its context"""
    fn = "cee_block_mk_e"; nocall = True
    def pre(self, a, st, n, cxt, f):
        g = BlockNZ.pre(self, a, st, n); g.log = a.log("call"); return g
    def fnptr(self, ex, target, vals, rt): log_append(ex.ctx, "call", fn=target, cxt=vals[0], block=vals[1])
    def post(self, a, g, ret, st, n, cxt, f):
        BlockNZ.post(self, a, g, ret, st, n)
        a.log_is("call", g.log, 1, dict(fn=lambda k: f, cxt=lambda k: cxt, block=lambda k: ret), "the initialiser gets the context and the block, once")

def envfound(a, c, m, key):
    r = z3.Function("FOUND", z3.IntSort(), z3.IntSort(), z3.IntSort())(T(m), T(key)); a.ctx.keep.append(r)
    a.ctx.assume(And(le(0, r), le(r, U64MAX))); return r
@register
class EnvFind(Contract):
    """LOOK(e) is the value of the key seen from environment e: NULL outside every environment, the value in e's own variables
    if they have the key, else what is seen from the outer environment.  The search returns LOOK of the environment given."""
    fn = "cee_env_find"; props = ("C11",); nocall = True; boundable = True
    views = dict(cee_map_find=Ev("cee_map_find", make=envfound))
    loops = {("cee_env_find", 0): "search"}
    def look(self, a, e):
        r = z3.Function("LOOK", z3.IntSort(), z3.IntSort(), z3.IntSort())(T(e), T(self.g.key)); a.ctx.keep.append(r); return r
    def setup(self, ex):
        def hook(ex, addr, hint):
            """an environment of the chain is read: its outer environment and its variables"""
            ctx = ex.ctx; a = A(ex, True); g = self.g
            if g is None: return False
            for e in g.envs:
                if any(ctx.same(x, e) for x in g.open): continue
                if ctx.same(addr, e) or ctx.same(addr, simp(add(e, 8))):
                    ctx.prove(ne(e, 0), "no environment is read past the outermost")
                    return self.unfold(a, e)
            return False
        ex.auto.append(hook)
    def unfold(self, a, e):
        ctx = a.ctx; g = self.g; g.open = g.open + [e]
        cv = a.rec(e, "cee_env", None, "environment", ro=True); cv.ch.ro = True
        o, v = cv.f("outer"), cv.f("vars"); g.envs = g.envs + [o]
        r = envfound(a, None, v, g.key)
        ctx.assume(eq(self.look(a, e), If(And(ne(v, 0), ne(r, 0)), r, self.look(a, o))))
        return True
    def pre(self, a, e, key):
        self.g = g = G(key=key, e=e, envs=[e], open=[])
        a.ctx.assume(eq(self.look(a, 0), 0)); return g
    def search(self, a, L):
        g = L.g; e = L.v("e"); a.log("calls")
        if a.produce: g.envs = [e]; g.open = []
        a.fact(eq(self.look(a, e), self.look(a, g.e)), "the key is seen in no environment further in")
    def post(self, a, g, ret, e, key):
        for c in calls(a): a.fact(eq(c.args[1], key), "the key given is looked up")
        a.fact(eq(ret, self.look(a, e)), "the value in the innermost environment that has the key, NULL if none has")
