"""States: the chain of a state as a sequence C[0..n) of block headers (C[0] the state's own), collected by
sweeping and taken apart on deletion.  pos is the position of a header in that sequence.

The chain stays linked while blocks leave it; that is the invariant linked(t) for every block t of the
chain still alive: it is reached from an earlier one and leads to a later one (or is the tail).  By
induction over pos every such block is reached from C[0]: the live blocks are exactly those on the chain."""
from .common import *
from .set import *

def chain(a, g, v):
    """the whole chain of state v; produce only"""
    ctx = a.ctx; s = g.s
    g.C = C = Base(ctx, "chain", 8, False); g.pos = pos = Base(ctx, "pos", 8, True); g.W = Base(ctx, "at", 8, False); g.K = K = Base(ctx, "k", 8, False)
    g.n = n = ctx.fresh("blocks", 1, SZ); c0 = sect0(v); g.c0 = c0
    ctx.assume(eq(C.get(ctx, 0), c0))
    inn = lambda j: And(le(0, j), lt(j, n))
    ctx.addfact([K], lambda j: Implies(inn(j), And(s.dom.get(ctx, C.get(ctx, j)), eq(pos.get(ctx, C.get(ctx, j)), j))))
    ctx.addfact([K], lambda j: Implies(And(inn(j), lt(add(j, 1), n)), And(eq(s["trace_next"].get(ctx, C.get(ctx, j)), C.get(ctx, simp(add(j, 1)))), eq(s["trace_prev"].get(ctx, C.get(ctx, simp(add(j, 1)))), C.get(ctx, j)))))
    last = C.get(ctx, simp(sub(n, 1)))
    ctx.assume(And(eq(s["trace_next"].get(ctx, last), 0), eq(g.tail, last)))
    K.get(ctx, 0); K.get(ctx, 1); K.get(ctx, simp(sub(n, 1)))

def onchain(g, ctx, t):
    p = g.pos.get(ctx, t)
    return And(le(0, p), lt(p, g.n), eq(g.C.get(ctx, p), t))

def linked(a, g, t, nx, pv, dom, tail):
    ctx = a.ctx; x, y = nx.get(ctx, t), pv.get(ctx, t); p = g.pos.get(ctx, t)
    return Implies(And(onchain(g, ctx, t), dom.get(ctx, t)), And(
        Implies(ne(t, g.c0), And(dom.get(ctx, y), onchain(g, ctx, y), lt(g.pos.get(ctx, y), p), eq(nx.get(ctx, y), t))),
        Implies(ne(x, 0), And(dom.get(ctx, x), onchain(g, ctx, x), lt(p, g.pos.get(ctx, x)), eq(pv.get(ctx, x), t))),
        Iff(eq(x, 0), eq(t, tail))))

def chain_now(a, g, sv, dead, what):
    """the current chain: exactly the blocks for which dead(t) holds have left it"""
    ctx = a.ctx; m = a.ex.getmap("SECT"); a.maps_touched.add("SECT"); s = g.s
    if a.produce:
        nx, pv, dom = Base(ctx, "trace_next", 8, False, True), Base(ctx, "trace_prev", 8, False, True), BBase(ctx, "live")
        m.fields["trace_next"], m.fields["trace_prev"], m.domarr = nx, pv, dom
        tail = sv.f("_.trace_tail")
        ctx.addfact([dom], lambda t: Iff(dom.get(ctx, t), And(s.dom.get(ctx, t), Not(And(onchain(g, ctx, t), dead(t))))))
        ctx.addfact([nx], lambda t: Implies(Not(onchain(g, ctx, t)), eq(nx.get(ctx, t), s["trace_next"].get(ctx, t))))
        ctx.addfact([pv], lambda t: Implies(Not(onchain(g, ctx, t)), eq(pv.get(ctx, t), s["trace_prev"].get(ctx, t))))
        W = g.W = Base(ctx, "at", 8, False)
        ctx.addfact([W], lambda t: linked(a, g, t, nx, pv, dom, tail))
        ctx.assume(And(dom.get(ctx, tail), onchain(g, ctx, tail)))
        g.nx, g.pv, g.dom = nx, pv, dom
        W.get(ctx, tail); W.get(ctx, g.c0)
        return
    nx, pv, dom = m.fields["trace_next"], m.fields["trace_prev"], m.domarr
    tail = sv.f("_.trace_tail")
    t = ctx.fresh("blk", 4096, 1 << 47)
    d0, oc, dd = s.dom.get(ctx, t), onchain(g, ctx, t), dead(t)
    a.fact(Implies(Not(oc), Iff(dom.get(ctx, t), d0)), "no block of another chain is deleted")
    a.fact(Implies(And(oc, dd), Not(dom.get(ctx, t))), what)
    a.fact(Implies(And(oc, Not(dd)), Iff(dom.get(ctx, t), d0)), what)
    a.fact(Implies(Not(onchain(g, ctx, t)), And(eq(nx.get(ctx, t), s["trace_next"].get(ctx, t)), eq(pv.get(ctx, t), s["trace_prev"].get(ctx, t)))), "other chains are left alone")
    near(a, g, t)
    a.fact(linked(a, g, t, nx, pv, dom, tail), "the chain stays linked")
    a.fact(And(dom.get(ctx, tail), onchain(g, ctx, tail)), "the tail is on the chain")
    a.map_is("SECT", {f: s[f] for f in SECTF if f not in ("trace_next", "trace_prev")}, dom, "nothing else in the headers changes")

def near(a, g, t):
    """instances of the invariant around t"""
    ctx = a.ctx; W = g.W
    W.get(ctx, t)
    if getattr(g, "nx", None) is not None:
        W.get(ctx, g.nx.get(ctx, t)); W.get(ctx, g.pv.get(ctx, t))

def takeout(a, c, p, ta):
    """a block leaves its chain and is freed (what every trace function does on CEE_TRACE_DEL_NO_FOLLOW)"""
    ctx = a.ctx; g = a.ex.spec.g; m = a.ex.getmap("SECT"); sec = sect0(p)
    if m.ro: ctx.fail("block headers are outside the frame here", kind="frame")
    ctx.prove(eq(ta, 0), "a block is deleted without following what it holds")
    near(a, g, sec)
    nx, pv = m.fields["trace_next"], m.fields["trace_prev"]
    ctx.prove(And(onchain(g, ctx, sec), m.domarr.get(ctx, sec)), "a block of this chain, still alive, is deleted")
    ctx.prove(ne(sec, g.c0), "the state itself stays")
    n_, p_ = nx.get(ctx, sec), pv.get(ctx, sec)
    st = find_state(a); tail = StView(a, st).f("_.trace_tail")
    m.fields["trace_next"] = nx.store(p_, n_)
    m.fields["trace_prev"] = pv.store(n_, If(eq(n_, 0), pv.get(ctx, n_), p_))
    m.domarr = m.domarr.store(sec, False)
    o, ty, bit = field(a.tu, "_cee_state_header", "_.trace_tail")
    if st.ro: ctx.fail("the state's chain is outside the frame here", kind="frame")
    st.cells[o] = (8, False, simp(If(eq(n_, 0), p_, tail)))
    a.maps_touched.add("SECT"); g.gone = sec

class OnState(Contract):
    views = {"cee_trace": Ev("cee_trace", make=takeout)}; props = ("C07", "C09")
    def base(self, a, v):
        s = sect(a); sv = state_own(a, v)
        g = G(s=s, v=v, tail=sv.f("_.trace_tail"), nx=None, pv=None, gone=None)
        g.sf = {f: sv.f(f) for f in ("_.roots", "_.next_mark", "_.stack", "_.contexts")}
        g.nx, g.pv = s["trace_next"], s["trace_prev"]
        chain(a, g, v)
        W = g.W
        if a.produce: a.ctx.addfact([W], lambda t: linked0(a, g, t))
        W.get(a.ctx, g.c0); W.get(a.ctx, g.tail)
        return g
    def keep(self, a, g):
        sv = state_own(a, g.v)
        for f, x in g.sf.items(): sv.setf(f, x, "state field %s unchanged" % f)
        return sv

def linked0(a, g, t):
    """the chain is the sequence C: lemma, by the facts about C at pos(t), pos(t)-1, pos(t)+1"""
    ctx = a.ctx; p = g.pos.get(ctx, t); g.K.get(ctx, p); g.K.get(ctx, simp(sub(p, 1))); g.K.get(ctx, simp(add(p, 1)))
    return True

@register
class StateSweep(OnState):
    """exactly the blocks of the chain that do not carry the mark are deleted"""
    fn = "_cee_state_sweep"; loops = {("_cee_state_sweep", 0): "loop"}; nocall = True; boundable = False
    def pre(self, a, v, ta):
        a.fact(Or(eq(ta, 2), eq(ta, 3)), "a mark")
        g = self.base(a, v); g.want = sub(ta, 2); ctx = a.ctx
        g.mk = lambda t: eq(g.s["gc_mark"].get(ctx, t), g.want)
        ctx.assume(g.mk(g.c0))          # the mark has been passed to the state
        return g
    def loop(self, a, L):
        g = L.g; ctx = a.ctx; a.log("calls"); head = L.v("head"); n = g.n
        sv = self.keep(a, g)
        if a.produce: k = g.k = ctx.fresh("k", 0, SZ)
        else: k = 0 if L.entry else simp(add(g.k, 1))
        if not a.produce: near(a, g, g.C.get(ctx, k)); near(a, g, g.C.get(ctx, simp(sub(k, 1))))
        a.fact(And(le(0, k), le(k, n)), "the walk stays on the chain")
        a.fact(eq(head, If(lt(k, n), g.C.get(ctx, k), 0)), "block after block")
        chain_now(a, g, sv, lambda t: And(lt(g.pos.get(ctx, t), k), Not(g.mk(t))), "exactly the unmarked blocks met have been deleted")
        m = a.ex.getmap("SECT"); nx, dom = m.fields["trace_next"], m.domarr
        ahead = lambda j: Implies(And(le(k, j), lt(j, n)), And(dom.get(ctx, g.C.get(ctx, j)), eq(nx.get(ctx, g.C.get(ctx, j)), If(lt(add(j, 1), n), g.C.get(ctx, simp(add(j, 1))), 0))))
        if a.produce:
            ctx.addfact([g.K], ahead); g.W.get(ctx, g.C.get(ctx, k)); g.K.get(ctx, k); g.K.get(ctx, simp(add(k, 1)))
        else:
            j = ctx.fresh("j", 0, SZ); g.K.get(ctx, j); near(a, g, g.C.get(ctx, j)); a.fact(ahead(j), "what lies ahead is still as it was")
    def post(self, a, g, ret, v, ta):
        ctx = a.ctx; sv = self.keep(a, g)
        chain_now(a, g, sv, lambda t: Not(g.mk(t)), "exactly the blocks that do not carry the mark are deleted")

@register
class StateTrace(OnState):
    fn = "_cee_state_trace"; loops = {("_cee_state_trace", 0): "loop"}; nocall = True; boundable = False
    views = {}
    def contract(self, name):
        if name == "cee_trace" and self.g is not None and self.g.k == "follow": return OnState.views[name]
        return OnState.contract(self, name)
    def pre(self, a, v, ta):
        ctx = a.ctx
        a.fact(And(le(0, ta), le(ta, 3)), "a trace action")
        if a.branch(eq(ta, 1)):
            g = self.base(a, v); g.k = "follow"; return g
        s = sect(a); sv = state_own(a, v); g = G(s=s, v=v, c0=sect0(v), tail=sv.f("_.trace_tail"))
        g.sf = {f: sv.f(f) for f in ("_.roots", "_.next_mark", "_.stack", "_.contexts")}
        g.k = "nofollow" if a.branch(eq(ta, 0)) else "mark"
        if g.k == "mark":
            g.marks = marks(a)
            for f in ("_.roots", "_.stack", "_.contexts"): ctx.assume(Implies(ne(g.sf[f], 0), s.dom.get(ctx, sect0(g.sf[f]))))
        return g
    def loop(self, a, L):
        g = L.g; ctx = a.ctx; a.log("calls"); tail = L.v("tail"); n = g.n
        sv = self.keep(a, g)
        if a.produce: k = g.i = ctx.fresh("k", 0, SZ)
        else:
            k = simp(add(g.pos.get(ctx, tail), 1)); near(a, g, tail)
        if a.produce: ks = [simp(sub(k, 1)), simp(sub(k, 2))]
        else: g.K.get(ctx, simp(sub(k, 1))); g.K.get(ctx, simp(sub(k, 2)))
        a.fact(And(le(1, k), le(k, n), eq(tail, g.C.get(ctx, simp(sub(k, 1))))), "the walk goes back on the chain")
        a.fact(eq(sv.f("_.trace_tail"), tail), "it stands at the chain's tail")
        chain_now(a, g, sv, lambda t: ge(g.pos.get(ctx, t), k), "exactly the blocks behind have been deleted")
        m = a.ex.getmap("SECT"); pv = m.fields["trace_prev"]
        back = lambda j: Implies(And(le(1, j), lt(j, k)), eq(pv.get(ctx, g.C.get(ctx, j)), g.C.get(ctx, simp(sub(j, 1)))))
        if a.produce:
            ctx.addfact([g.K], back); g.W.get(ctx, tail)
            for j in ks: g.K.get(ctx, j)
        else:
            if not L.entry: a.fact(eq(k, sub(g.i, 1)), "one block at a time")
            j = ctx.fresh("j", 0, SZ); g.K.get(ctx, j); g.K.get(ctx, simp(sub(j, 1))); near(a, g, g.C.get(ctx, j)); a.fact(back(j), "what lies ahead is still as it was")
    def post(self, a, g, ret, v, ta):
        ctx = a.ctx; m = a.ex.getmap("SECT")
        if g.k == "follow":
            t = ctx.fresh("blk", 4096, 1 << 47); near(a, g, t)
            a.fact(Implies(And(onchain(g, ctx, t), ne(t, g.c0)), Not(m.domarr.get(ctx, t))), "every block of the state is released")
            a.fact(Implies(Not(onchain(g, ctx, t)), Iff(m.domarr.get(ctx, t), g.s.dom.get(ctx, t))), "and no other")
            a.maps_touched.add("SECT"); return                 # the state's own block is gone: nothing is owned
        if g.k == "nofollow": a.map_is("SECT", g.s.fields, g.s.dom.store(g.c0, False), "only the state's block is freed"); return
        sv = self.keep(a, g); sv.setf("_.trace_tail", g.tail, "the chain's tail stays"); ms = marks(a)
        want = sub(ta, 2); x = ctx.fresh("blk")
        a.fact(eq(m.fields["gc_mark"].get(ctx, g.c0), want), "the state carries the current mark")
        a.fact(Or(eq(m.fields["gc_mark"].get(ctx, x), g.s["gc_mark"].get(ctx, x)), eq(m.fields["gc_mark"].get(ctx, x), want)), "marking sets only the current mark")
        a.map_is("SECT", {f: g.s[f] for f in SECTF if f != "gc_mark"}, g.s.dom, "marking changes nothing else in any header")
        for f in ("_.roots", "_.stack", "_.contexts"):
            a.fact(Implies(ne(g.sf[f], 0), ms.get(ctx, g.sf[f])), "the mark reaches the %s" % f[2:])

@register
class StateGc(Contract):
    fn = "cee_state_gc"; props = ("C09",); views = {"cee_trace": Ev("cee_trace"), "_cee_state_sweep": Ev("_cee_state_sweep")}
    def pre(self, a, s):
        sc = sect(a); sv = state_own(a, s); m = sv.f("_.next_mark")
        a.fact(Or(eq(m, 0), eq(m, 1)), "the mark is 0 or 1")
        return G(s=sc, tail=sv.f("_.trace_tail"), m=m, sf={f: sv.f(f) for f in ("_.roots", "_.stack", "_.contexts")})
    def post(self, a, g, ret, s):
        ctx = a.ctx; cs = calls(a)
        if len(cs) != 2 or [c.fn for c in cs] != ["cee_trace", "_cee_state_sweep"]: ctx.fail("everything reachable is marked, then the rest is swept", kind="own")
        for c in cs: a.fact(And(eq(c.args[0], s), eq(c.args[1], add(2, g.m))), "%s with the current mark" % ("marking" if c.fn == "cee_trace" else "sweeping"))
        sv = state_own(a, s); sv.setf("_.next_mark", sub(1, g.m), "the next collection uses the other mark")
        for f, x in g.sf.items(): sv.setf(f, x, "state field %s unchanged" % f)
        sv.setf("_.trace_tail", g.tail); a.map_is("SECT", g.s.fields, g.s.dom)

@register
class StateCmp(Contract):
    fn = "_cee_state_cmp"; props = ("C09",)
    def post(self, a, g, ret, x, y): a.fact(And(Iff(eq(ret, 0), eq(x, y)), Iff(lt(ret, 0), lt(x, y))), "addresses are ordered")

class Hand(Contract):
    """hands its arguments on to one container of the state"""
    props = ("C09",); to = None; f = None; k = 1
    def contract(self, name):
        return Ev(name) if name == self.to else Contract.contract(self, name)
    def pre(self, a, s, *r):
        sc = sect(a); sv = state_own(a, s); return G(s=sc, tail=sv.f("_.trace_tail"), c=sv.f(self.f), sf={f: sv.f(f) for f in ("_.roots", "_.next_mark", "_.stack", "_.contexts")})
    def post(self, a, g, ret, s, *r):
        cs = calls(a)
        if len(cs) != 1: a.ctx.fail("one operation on the state's %s" % self.f[2:], kind="own")
        c = cs[0]; a.fact(And(eq(c.args[0], g.c), *[eq(x, y) for x, y in zip(c.args[1:], r)]), "the operation is on the state's %s" % self.f[2:])
        if self.res: a.fact(eq(ret, c.ret), "its result is returned")
        sv = state_own(a, s); sv.setf("_.trace_tail", g.tail)
        for f, x in g.sf.items(): sv.setf(f, x, "state field %s unchanged" % f)
        a.map_is("SECT", g.s.fields, g.s.dom)
for _n, _to, _f, _r in (("add_gc_root", "cee_set_add", "roots", 0), ("remove_gc_root", "cee_set_remove", "roots", 0), ("add_context", "cee_map_add", "contexts", 0),
                        ("remove_context", "cee_map_remove", "contexts", 0), ("get_context", "cee_map_find", "contexts", 1)):
    register(type("State_" + _n, (Hand,), dict(fn="cee_state_" + _n, to=_to, f="_." + _f, res=_r)))

def part(a, c, st, *r):
    """a part of the new state is made: it is linked behind the state's last block"""
    ctx = a.ctx; g = a.ex.spec.g; o = a.tu.off("_cee_state_header", "_.trace_tail") if False else field(a.tu, "_cee_state_header", "_.trace_tail")[0]
    t = a.ex.load(simp(add(sub(st, 56), o)), P)
    want = sect0(st) if g.tail is None else g.tail
    ctx.prove(eq(t, want), "the state's chain ends with its last block")
    if g.tail is None: g.p = st; g.parts = []
    c.st = st; g.tail = ctx.fresh("tail", 4096, 1 << 47); a.ex.store(simp(add(sub(st, 56), o)), P, g.tail)
    g.parts.append(c)
@register
class StateMk(Contract):
    fn = "cee_state_mk"; props = ("C07", "C09"); nocall = True
    views = {n: Ev(n, nonnull=True, make=part) for n in ("cee_set_mk_e", "cee_stack_mk", "cee_map_mk")}
    def pre(self, a, n): return G(tail=None, parts=[])
    def post(self, a, g, ret, n):
        ctx = a.ctx; by = {c.fn: c for c in g.parts}
        if len(g.parts) != 3 or len(by) != 3: ctx.fail("roots, stack and contexts are made", kind="own")
        cv = a.rec(simp(sub(ret, 56)), "_cee_state_header", None, "state")
        for c in g.parts: a.fact(eq(c.args[0], ret), "they belong to the new state")
        r, s, m = by["cee_set_mk_e"], by["cee_stack_mk"], by["cee_map_mk"]
        cv.setf("_.roots", r.ret, "the state's roots"); cv.setf("_.stack", s.ret, "the state's stack"); cv.setf("_.contexts", m.ret, "the state's contexts")
        a.fact(And(eq(r.args[1], NOOP), eq(r.args[2], faddr(a, "_cee_state_cmp"))), "roots are told apart by address and not owned")
        a.fact(eq(s.args[1], n), "the stack has the size asked for"); a.fact(eq(m.args[1], faddr(a, "strcmp")), "contexts are named by strings")
        cv.setf("_.next_mark", 1, "the first collection uses mark 1, new blocks carry 0"); cv.setf("_.trace_tail", g.tail, "the chain ends with the last part")
        for f in SECTF: cv.setf("cs." + f, faddr(a, "_cee_state_trace") if f == "trace" else 0, "header field %s of the new state" % f) if f != "trace_next" else None
