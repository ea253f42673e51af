"""cee-common.c: reference counting, deletion, state (C08, C07)."""
from .base import *

@register
class IncrIndegree(Contract):
    fn = "cee_incr_indegree"; props = ("C08",)
    def pre(self, a, o, p):
        s = sect(a)
        policy_ok(a, o, p, s)
        return G(s=s)
    def post(self, a, g, ret, o, p):
        ok = And(le(0, o), le(o, 2))
        f = counted(a, g.s, o, p)
        a.map_is("SECT", f, g.s.dom)

@register
class DecrIndegree(Contract):
    fn = "cee_decr_indegree"; props = ("C08",)
    def pre(self, a, o, p):
        s = sect(a)
        policy_ok(a, o, p, s, count=False)
        a.fact(Implies(eq(o, DEL), eq(s["retained"].get(a.ctx, sect0(p)), 1)), "an element leaving a DEL container is retained by it")
        return G(s=s)
    def post(self, a, g, ret, o, p):
        a.map_is("SECT", counted(a, g.s, o, p, True), g.s.dom)

def ev(a, kind, p):
    a.ctx.ghosts["predel"] = sect(a)
    log_append(a.ctx, "del", kind=kind, p=p)
    del_effect(a)

class DelRefC(Contract):
    """callers' view of cee_del_ref: the event, with arbitrary effect on blocks not owned by the caller"""
    fn = "cee_del_ref"; trusted = True
    def post(self, a, g, ret, p):
        if a.produce and a.branch(ne(p, 0)): ev(a, RC, p)
def owned_block(a, p):
    """the block at p if it is owned here as a chunk"""
    ctx = a.ctx
    r = ctx.find(simp(p))
    if r is None: return None
    ch, d = r
    if ch.kind != "heap" or ch.ro or not ch.holes: return None
    if not any(ctx.same(simp(add(ch.base, ho)), sect0(p)) for ho, hs, mp in ch.holes): return None
    return ch
class DelC(Contract):
    """a block owned here is deleted as its own trace function's contract says; for any other the event is recorded"""
    fn = "cee_del"; trusted = True
    def pre(self, a, p):
        ctx = a.ctx
        if a.produce: return G(ob=None)
        ch = owned_block(a, p)
        if ch is None: return G(ob=None)
        tr = simp(sect(a)["trace"].get(ctx, sect0(p)))
        for s in SPECS:
            if isinstance(s, ObjTrace) and ctx.same(tr, faddr(a, s.fn)):
                return G(ob=s, g=s.pre(a, p, 1))
        raise Annot("the trace function of a block deleted here is not known")
    def post(self, a, g, ret, p):
        if not a.produce: return
        if g.ob is not None: g.ob.produced(a, g.g); return
        if a.branch(ne(p, 0)): ev(a, DEL, p)
class DelEC(Contract):
    fn = "cee_del_e"; trusted = True
    def pre(self, a, o, p):
        a.fact(And(le(0, o), le(o, 2)), "valid delete policy"); return G()
    def post(self, a, g, ret, o, p):
        if a.branch(eq(o, NOOP)): return
        if a.branch(ne(p, 0)): ev(a, o, p)
class TraceC(Contract):
    fn = "cee_trace"; trusted = True
    def pre(self, a, p, ta):
        s = sect(a)
        a.fact(Implies(ne(p, 0), s.dom.get(a.ctx, sect0(p))), "a traced block is live")
        return G()
    def post(self, a, g, ret, p, ta):
        ctx = a.ctx
        if not a.branch(ne(p, 0)): return
        if a.branch(ge(ta, 2)):
            want = sub(ta, 2)
            ms = marks(a)
            m = a.ex.getmap("SECT"); old = m.fields["gc_mark"]
            owned = own_sects(a)
            havoc_sect(a, only=["gc_mark"])
            new = m.fields["gc_mark"]
            ctx.addfact([new], lambda t: Or(eq(new.get(ctx, t), old.get(ctx, t)), eq(new.get(ctx, t), want)))
            ctx.ghosts["marks"] = ms.store(p, True)
        else:
            log_append(ctx, "del", kind=add(ta, 10), p=p); del_effect(a)
for c in (DelRefC, DelC, DelEC, TraceC): register(c)

class OneTrace(Contract):
    """cee_trace and cee_del call the block's own trace function"""
    nocall = True; props = ("C07", "C08")
    def pre(self, a, p, *r):
        s = sect(a); log = a.log("tracecall")
        if a.branch(ne(p, 0)):
            a.fact(s.dom.get(a.ctx, sect0(p)))
            return G(s=s, log=log, z=False, f=s["trace"].get(a.ctx, sect0(p)))
        return G(s=s, log=log, z=True)
    def fnptr(self, ex, target, vals, rt):
        log_append(ex.ctx, "tracecall", fn=target, p=vals[0], ta=vals[1])
        return None
    def calls(self, a, g, p, ta, when=True):
        ctx = a.ctx
        if g.z or not a.branch(when):
            a.log_is("tracecall", g.log, 0, {}, "no trace function is called"); return
        a.log_is("tracecall", g.log, 1, dict(fn=lambda k: g.f, p=lambda k: p, ta=lambda k: ta), "the block's trace function is called once with the action")
    def post(self, a, g, ret, p, ta):
        self.calls(a, g, p, ta)
        a.map_is("SECT", g.s.fields, g.s.dom)

@register
class TraceV(OneTrace):
    fn = "cee_trace"
@register
class DelV(OneTrace):
    fn = "cee_del"
    def post(self, a, g, ret, p): OneTrace.post(self, a, g, ret, p, 1)
@register
class DelRefV(OneTrace):
    fn = "cee_del_ref"
    def post(self, a, g, ret, p):
        if g.z: return OneTrace.post(self, a, g, ret, p, 1)
        ctx = a.ctx; x = sect0(p)
        d = g.s["in_degree"].get(ctx, x)
        nd = If(gt(d, 0), sub(d, 1), 0)
        self.calls(a, g, p, 1, And(eq(nd, 0), eq(g.s["retained"].get(ctx, x), 0)))
        f = dict(g.s.fields); f["in_degree"] = f["in_degree"].store(x, nd)
        a.map_is("SECT", f, g.s.dom, "only the count of the block changes")
@register
class DelEV(Contract):
    fn = "cee_del_e"; nocall = True; props = ("C08",)
    def pre(self, a, o, p):
        s = sect(a); a.fact(And(le(0, o), le(o, 2)))
        return G(log=a.log("del"))
    def post(self, a, g, ret, o, p):
        if a.branch(And(ne(o, NOOP), ne(p, 0))):
            a.log_is("del", g.log, 1, dict(kind=lambda k: o, p=lambda k: p), "the policy is applied once")
        else: a.log_is("del", g.log, 0, {}, "nothing is deleted")
        if a.verify: a.maps_touched.add("SECT")

@register
class GetState(Contract):
    fn = "cee_get_state"; props = ("C07",)
    def pre(self, a, p):
        s = sect(a); a.fact(s.dom.get(a.ctx, sect0(p)), "a live block"); return G(s=s)
    def post(self, a, g, ret, p):
        a.fact(eq(ret, g.s["state"].get(a.ctx, sect0(p))), "the state the block was made in")
        a.map_is("SECT", g.s.fields, g.s.dom)
