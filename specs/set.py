"""set.c (C05; deletion and marking C07-C09), given the tree's contract.  The tree's items are the elements."""
from .base import *
from .list import list_is, H as LH
from .tree import *
from .map import grown, value_ok, FSect, A_, find_or, ListOf

SH = "_cee_set_header"

def set_own(a, m):
    ctx = a.ctx
    cv = own(a, m, SH, "_", "set")
    g = G(cv=cv, m=m, cmp=cv.f("cmp"), n=cv.f("size"), pol=cv.f("del_policy"), root=cv.get(a.tu.off(SH, "_"), U64), ta=cv.f("ta"))
    hdr = cv.base; rootp = simp(m); s = sect(a); g.sec = cv.sect; g.st = s["state"].get(ctx, g.sec)
    a.fact(lt(g.n, SZ - 1), "fewer than 2^31 elements")
    a.fact(And(le(0, g.pol), le(g.pol, 2)), "valid delete policy")
    R = g.R = rank(a, g.cmp)
    if a.produce:
        T = g.E = Base(ctx, "elements", 8, False)
        sdistinct(a, R, g.n, T)
        t = mktree(a, rootp, g.root, g.n, T, None, faddr(a, "_cee_set_cmp"), hdr, R=R, deps=[T], m=m)
        hook_set(a, t); g.t = t
    else:
        t = take(a, m, rootp); g.t = t
        a.fact(And(eq(t.n, g.n), eq(t.root, g.root), eq(t.cmp, faddr(a, "_cee_set_cmp")), eq(t.cxt, hdr)), "the tree is the set's")
        g.E = t.T; sdistinct(a, R, g.n, g.E)
    return g
def sdistinct(a, R, n, E):
    from .map import distinct
    return distinct(a, R, n, E)
def take(a, m, rootp):
    ctx = a.ctx
    p = find_tree(a, rootp)
    if p is None: ctx.fail("the set's tree is owned here", kind="own")
    if p.ro: ctx.fail("the set is outside the frame here", kind="frame")
    ctx.heap.remove(p); unlend(a, p.args)
    return p.args
def hook_set(a, t):
    ctx = a.ctx
    t.rk = lambda i: t.R.get(ctx, t.T.get(ctx, i))
    def added(a, t, key, n): t.deps = [t.T]
    def removed(a, t, item, ix): pass
    t.added, t.removed = added, removed
def set_is(a, g, m, n, E, ta=None):
    ctx = a.ctx
    cv = own(a, m, SH, "_", "set")
    cv.setf("size", n, "the number of elements is exact"); cv.setf("cmp", g.cmp, "the comparison is kept"); cv.setf("del_policy", g.pol, "the policy is kept")
    cv.setf("ta", g.ta if ta is None else ta)
    root = cv.get(a.tu.off(SH, "_"), U64); R = rank(a, g.cmp)
    if a.produce:
        sdistinct(a, R, n, E)
        t = mktree(a, simp(m), root, n, E, None, faddr(a, "_cee_set_cmp"), cv.base, R=R, deps=[E], m=m); hook_set(a, t)
        return
    t = take(a, m, simp(m))
    a.fact(And(eq(t.n, n), eq(t.root, root)), "the tree has exactly as many items")
    a.arreq(t.T, E, 0, n, "the set has exactly the specified elements")
    sdistinct(a, R, n, E)

@register
class SetCmp(Contract):
    fn = "_cee_set_cmp"; props = ("C05",)
    def pre(self, a, cxt, v1, v2):
        cv = a.rec(cxt, SH, None, "set", ro=True); g = G(cmp=cv.f("cmp")); g.R = rank(a, g.cmp); return g
    def fnptr(self, ex, target, vals, rt):
        if not ex.ctx.same(target, self.g.cmp): return NotImplemented
        return cmp_call(ex, target, vals[0], vals[1])
    def post(self, a, g, ret, cxt, v1, v2):
        ctx = a.ctx
        a.fact(sign_is(ret, g.R.get(ctx, v1), g.R.get(ctx, v2)), "the result is the comparison's")
    def rankof(self, a, cxt, x):
        cmp = a.ex.load(simp(add(cxt, field(a.tu, SH, "cmp")[0])), P)
        return rank(a, cmp).get(a.ctx, x)
COMPARERS["_cee_set_cmp"] = SetCmp()

class SetSpec(Contract):
    props = ("C05",)
    def fnptr(self, ex, target, vals, rt):
        if ex.ctx.same(target, self.g.mp.cmp): return cmp_call(ex, target, vals[0], vals[1])
        return NotImplemented
    def same(self, a, g, m):
        set_is(a, g.mp, m, g.mp.n, g.mp.E); a.map_is("SECT", g.s.fields, g.s.dom)
    def lookup(self, a, g, key):
        ctx = a.ctx; mp = g.mp; R = mp.R; r = R.get(ctx, key)
        b = ctx.fresh("present", 0, 1)
        if a.branch(eq(b, 1)):
            ix = ctx.fresh("ix", 0, SZ); ctx.assume(And(lt(ix, mp.n), eq(R.get(ctx, mp.E.get(ctx, ix)), r))); return ix
        n, E = mp.n, mp.E
        ctx.addfact(ctx.arr_bases(getattr(E, "under", E)), lambda k: Implies(And(le(0, k), lt(k, n)), ne(R.get(ctx, E.get(ctx, k)), r)))
        return None
    def which(self, a, g, m, key):
        """index of the element comparing equal, or None (with the obligation that it is so)"""
        ctx = a.ctx; mp = g.mp; R = mp.R; r = R.get(ctx, key)
        if a.produce: return self.lookup(a, g, key)
        p = find_tree(a, simp(m))
        if p is None: ctx.fail("the set's tree is owned here", kind="own")
        ix = getattr(p.args, "last", None)
        if ix is None:
            k = ctx.fresh("k")
            a.fact(Implies(And(le(0, k), lt(k, mp.n)), ne(R.get(ctx, mp.E.get(ctx, k)), r)), "no element of the set compares equal")
        else: a.fact(And(le(0, ix), lt(ix, mp.n), eq(R.get(ctx, mp.E.get(ctx, ix)), r)), "the element compares equal")
        return ix
    def tell(self, a, m, ix):
        if a.produce: find_tree(a, simp(m)).args.last = ix

@register
class SetSize(SetSpec):
    fn = "cee_set_size"
    def pre(self, a, m):
        if a.branch(eq(m, 0)): return G(z=True)
        return G(z=False, s=sect(a), mp=set_own(a, m))
    def post(self, a, g, ret, m):
        if g.z: a.fact(eq(ret, 0), "size of NULL is 0"); return
        a.fact(eq(ret, g.mp.n), "cee_set_size is the number of elements"); self.same(a, g, m)
@register
class SetEmpty(SetSize):
    fn = "cee_set_empty"
    def post(self, a, g, ret, m):
        if g.z: a.fact(eq(ret, 1), "NULL is empty"); return
        a.fact(eq(ret, If(eq(g.mp.n, 0), 1, 0)), "empty exactly when there is no element"); self.same(a, g, m)

@register
class SetFind(SetSpec):
    fn = "cee_set_find"
    def pre(self, a, m, key):
        if a.branch(eq(m, 0)): return G(z=True)
        return G(z=False, s=sect(a), mp=set_own(a, m))
    def post(self, a, g, ret, m, key):
        if g.z: a.fact(eq(ret, 0), "nothing is in NULL"); return
        ix = self.which(a, g, m, key)
        want = 0 if ix is None else g.mp.E.get(a.ctx, ix)
        if not a.produce: a.fact(eq(ret, want), "the element comparing equal, NULL if there is none")
        self.same(a, g, m); self.tell(a, m, ix)
        return want if a.produce else None

@register
class SetMkE(Contract):
    fn = "cee_set_mk_e"; props = ("C05", "C07")
    def pre(self, a, st, o, cmp):
        s = sect(a); sv = state_own(a, st); tail = chain_ok(a, sv)
        a.fact(And(le(0, o), le(o, 2)), "valid delete policy")
        return G(s=s, st=sv, tail=tail)
    def post(self, a, g, ret, st, o, cmp):
        ctx = a.ctx
        sv = state_own(a, st); keep_state(a, g.st, sv)
        fr = Fresh(a, g, sv); sz = a.tu.rec(SH).size
        cv = fr.block(ret, SH, "_", sz, mem_block_size=None, trace=faddr(a, "_cee_set_trace"), n_product=1)
        cv.setf("size", 0, "a new set is empty"); cv.setf("cmp", cmp, "the comparison given"); cv.setf("del_policy", o, "the policy given")
        cv.set(a.tu.off(SH, "_"), U64, 0, "the tree is empty")
        if a.produce:
            R = rank(a, cmp); E = Base(ctx, "elements", 8, False)
            t = mktree(a, simp(ret), 0, 0, E, None, faddr(a, "_cee_set_cmp"), cv.base, R=R, deps=[E], m=ret); hook_set(a, t)
        else:
            p = find_tree(a, simp(ret))
            if p is not None: a.fact(eq(p.args.n, 0), "the tree is empty"); ctx.heap.remove(p)
        fr.done()
@register
class SetMk(SetMkE):
    fn = "cee_set_mk"
    def pre(self, a, st, cmp): return SetMkE.pre(self, a, st, RC, cmp)
    def post(self, a, g, ret, st, cmp): return SetMkE.post(self, a, g, ret, st, RC, cmp)

@register
class SetAdd(SetSpec):
    """an element without an equal one goes in and is counted; otherwise nothing happens"""
    fn = "cee_set_add"; props = ("C05", "C08")
    def pre(self, a, m, val):
        mp = set_own(a, m); s = sect(a); policy_ok(a, mp.pol, val, s)
        return G(s=s, mp=mp)
    def post(self, a, g, ret, m, val):
        mp = g.mp; ctx = a.ctx
        if a.produce: ix = self.lookup(a, g, val)
        else:
            p = find_tree(a, simp(m))
            if p is None: ctx.fail("the set's tree is owned here", kind="own")
            ix = getattr(p.args, "last", None)
            if ix is not None and ctx.valid(eq(p.args.n, add(mp.n, 1))): ix = None     # only set by an earlier operation
            if ix is None:
                k = ctx.fresh("k")
                a.fact(Implies(And(le(0, k), lt(k, mp.n)), ne(mp.R.get(ctx, mp.E.get(ctx, k)), mp.R.get(ctx, val))), "added only if no element compares equal")
            else: a.fact(And(lt(ix, mp.n), eq(mp.R.get(ctx, mp.E.get(ctx, ix)), mp.R.get(ctx, val))), "ignored only if an element compares equal")
        if ix is not None: self.same(a, g, m)
        else:
            set_is(a, mp, m, simp(add(mp.n, 1)), mp.E.store(mp.n, val))
            a.map_is("SECT", counted(a, g.s, mp.pol, val), g.s.dom)
        self.tell(a, m, ix)

@register
class SetRemove(SetSpec):
    fn = "cee_set_remove"; props = ("C05", "C08")
    def pre(self, a, m, key):
        if a.branch(eq(m, 0)): return G(z=True)
        mp = set_own(a, m); s = sect(a); ctx = a.ctx; n = mp.n
        a.forall([mp.E], lambda k: Implies(And(le(0, k), lt(k, n)), value_ok(a, mp.pol, mp.E.get(ctx, k), s)), "elements are live blocks (retained under DEL)")
        return G(z=False, s=s, mp=mp)
    def post(self, a, g, ret, m, key):
        if g.z: a.fact(eq(ret, 0), "nothing is in NULL"); return
        mp = g.mp; ctx = a.ctx; n = mp.n
        ix = self.which(a, g, m, key)
        if ix is None:
            if not a.produce: a.fact(eq(ret, 0), "NULL when no element compares equal")
            self.same(a, g, m); return 0 if a.produce else None
        e = mp.E.get(ctx, ix)
        if not a.produce: a.fact(eq(ret, e), "the element removed is returned")
        set_is(a, mp, m, simp(sub(n, 1)), mp.E.copyin(ix, mp.E, simp(add(ix, 1)), simp(sub(sub(n, 1), ix))))
        a.map_is("SECT", counted(a, g.s, mp.pol, e, True), g.s.dom)
        return e if a.produce else None

@register
class SetValues(ListOf):
    """every element exactly once"""
    fn = "cee_set_values"; props = ("C05", "C07")
    def items(self, a, g): return g.mp.n, g.mp.E
    def own2(self, a, m): return set_own(a, m)
    def order(self, a, g):
        n, arr = self.items(a, g); ctx = a.ctx
        tp = find_tree(a, simp(g.m)); t = tp.args if tp is not None else g.mp.t
        p = perm(a, t)
        f = Fun(lambda k: arr.get(ctx, p.get(ctx, k)), 8, False); f.under = p
        return f
    def same2(self, a, g, m): set_is(a, g.mp, m, g.mp.n, g.mp.E)

@register
class SetIterate(SetSpec):
    """the callback gets every element exactly once"""
    fn = "cee_set_iterate"; nocall = True
    def pre(self, a, m, c, f):
        z = a.branch(eq(m, 0)); log = a.log("call"); g = G(z=z, log=log, m=m, c=c, f=f)
        if not z: g.mp = set_own(a, m); g.s = sect(a); perm(a, g.mp.t)
        return g
    def fnptr(self, ex, target, vals, rt):
        log_append(ex.ctx, "call", fn=target, c=vals[0], v=vals[1])
    def calls(self, a, g, k):
        ctx = a.ctx; p = perm(a, g.mp.t)
        a.log_is("call", g.log, k, dict(fn=lambda i: g.f, c=lambda i: g.c, v=lambda i: g.mp.E.get(ctx, p.get(ctx, i))), "every element is delivered once")
    def walk(self, a, w):
        g = w.g
        cv = a.rec(w.cxt, "_cee_set_fn_ctx", None, "fn_ctx", kind="local")
        cv.setf("ctx", g.c); cv.setf("f", g.f)
        self.calls(a, g, w.k)
    def post(self, a, g, ret, m, c, f):
        if g.z: a.log_is("call", g.log, 0, {}, "NULL has no elements"); return
        self.calls(a, g, g.mp.n); self.same(a, g, m)

class SetDel:
    """deleting the elements in the order of a tree walk"""
    def delwalk(self, a, w):
        g = w.g; ctx = a.ctx; k = w.k; p = perm(a, w.t); T = w.t.T
        m = a.ex.getmap("SECT"); a.maps_touched.add("SECT")
        st2 = state_own(a, g.stp)
        for f, x in g.sf.items(): st2.setf(f, x, "state field %s unchanged" % f)
        pol = g.mp.pol
        a.log_is("del", g.log, If(eq(pol, NOOP), 0, k), dict(kind=lambda i: pol, p=lambda i: T.get(ctx, p.get(ctx, i))), "the policy is applied to each element once")
        if a.produce:
            havoc_sect(a)
            ctx.assume(m.domarr.get(ctx, g.sec)); own_link(a, g.sec, find_state(a))
            ctx.assume(m.domarr.get(ctx, st2.f("_.trace_tail")))
            ctx.ghosts["sectnow"] = Snap(m); ctx.ghosts["tailnow"] = st2.f("_.trace_tail")
        else:
            a.fact(m.domarr.get(ctx, g.sec), "the set stays alive")
            ObjTrace.linked(self, a, g.sec, st2)
    def delpre(self, a, v, s):
        ctx = a.ctx; mp = set_own(a, v)
        sec = mp.cv.sect; stp = s["state"].get(ctx, sec)
        sv = state_own(a, stp); chain_ok(a, sv); link_ok(a, sec, sv)
        g = G(mp=mp, sec=sec, stp=stp, s=s, st=sv, v=v, tail=sv.f("_.trace_tail"), log=a.log("del"))
        g.sf = {f: sv.f(f) for f in ("_.roots", "_.next_mark", "_.stack", "_.contexts")}
        ctx.ghosts["sectnow"] = s; ctx.ghosts["tailnow"] = g.tail; g.cv = mp.cv
        return g
    def elems_ok(self, a, g, everyone):
        ctx = a.ctx; mp, s = g.mp, g.s; n = mp.n
        a.forall([mp.E], lambda k: Implies(And(le(0, k), lt(k, n), True if everyone else ne(mp.pol, NOOP)), And(ne(mp.E.get(ctx, k), 0), s.dom.get(ctx, sect0(mp.E.get(ctx, k))))), "elements are live blocks")

@register
class SetClear(SetDel, Contract):
    fn = "cee_set_clear"; props = ("C05", "C08")
    def pre(self, a, m):
        g = self.delpre(a, m, sect(a)); self.elems_ok(a, g, False); return g
    def walk(self, a, w): self.delwalk(a, w)
    def post(self, a, g, ret, m):
        ctx = a.ctx; mp = g.mp; p = perm(a, mp.t); pol = mp.pol
        a.log_is("del", g.log, If(eq(pol, NOOP), 0, mp.n), dict(kind=lambda i: pol, p=lambda i: mp.E.get(ctx, p.get(ctx, i))), "the policy is applied to each element exactly once")
        if a.produce and not a.branch(Or(eq(pol, NOOP), eq(mp.n, 0))): raise Annot("cee_set_clear is not used by contract")
        cv = own(a, m, SH, "_", "set")
        cv.setf("size", 0, "the set is empty"); cv.setf("cmp", mp.cmp, "the comparison is kept"); cv.setf("del_policy", pol, "the policy is kept")
        cv.set(a.tu.off(SH, "_"), U64, 0, "the tree is empty")
        st2 = state_own(a, g.stp)
        for f, x in g.sf.items(): st2.setf(f, x, "state field %s unchanged" % f)
        if a.verify: a.maps_touched.add("SECT")

@register
class SetTrace(SetDel, ObjTrace):
    fn = "_cee_set_trace"; props = ("C05", "C07", "C08", "C09")
    def pre(self, a, v, ta):
        ctx = a.ctx
        a.fact(And(le(0, ta), le(ta, 3)), "a trace action")
        k = "follow" if a.branch(eq(ta, 1)) else "nofollow" if a.branch(eq(ta, 0)) else "mark"
        g = self.delpre(a, v, sect(a)); g.k, g.ta = k, ta
        if k == "mark": g.marks = marks(a); self.elems_ok(a, g, True)
        elif k == "follow": self.elems_ok(a, g, False)
        return g
    def walk(self, a, w):
        g = w.g; ctx = a.ctx; k = w.k; p = perm(a, w.t); T = w.t.T
        if g.k == "nofollow": a.maps_touched.add("SECT"); return
        if g.k == "follow": return self.delwalk(a, w)
        m = a.ex.getmap("SECT"); a.maps_touched.add("SECT")
        cv = a.chunk(w.cxt, 4, "ta", kind="local"); cv.set(0, U32, g.ta)
        want = sub(g.ta, 2); old = g.s["gc_mark"]
        if a.produce:
            havoc_sect(a, only=["gc_mark"]); new = m.fields["gc_mark"]
            ctx.addfact([new], lambda t: Or(eq(new.get(ctx, t), old.get(ctx, t)), eq(new.get(ctx, t), want)))
            ctx.assume(eq(new.get(ctx, g.sec), want))
            ctx.ghosts["marks"] = ms = BBase(ctx, "marked")
            ctx.addfact([p], lambda j: Implies(And(le(0, j), lt(j, k)), ms.get(ctx, T.get(ctx, p.get(ctx, j)))))
        else:
            new = m.fields["gc_mark"]; x = ctx.fresh("blk")
            a.fact(Or(eq(new.get(ctx, x), old.get(ctx, x)), eq(new.get(ctx, x), want)), "marking sets only the current mark")
            a.fact(eq(new.get(ctx, g.sec), want), "the set carries the current mark")
            a.map_is("SECT", {f: g.s[f] for f in SECTF if f != "gc_mark"}, g.s.dom, "marking changes nothing else in any header")
            ms = marks(a); j = ctx.fresh("k")
            a.fact(Implies(And(le(0, j), lt(j, k)), ms.get(ctx, T.get(ctx, p.get(ctx, j)))), "the mark reached the elements walked over")
    def post(self, a, g, ret, v, ta):
        ctx = a.ctx; mp = g.mp
        if g.k == "mark":
            perm(a, mp.t); set_is(a, mp, v, mp.n, mp.E, ta)
            st2 = state_own(a, g.stp)
            for f, x in g.sf.items(): st2.setf(f, x, "state field %s unchanged" % f)
            m = a.ex.getmap("SECT"); want = sub(ta, 2); x = ctx.fresh("blk")
            a.fact(eq(m.fields["gc_mark"].get(ctx, g.sec), want), "the set carries the current mark")
            a.fact(Or(eq(m.fields["gc_mark"].get(ctx, x), g.s["gc_mark"].get(ctx, x)), eq(m.fields["gc_mark"].get(ctx, x), want)), "marking sets only the current mark")
            a.map_is("SECT", {f: g.s[f] for f in SECTF if f != "gc_mark"}, g.s.dom, "marking changes nothing else in any header")
            ms = marks(a); i = ctx.fresh("i"); mp.t.pinv.get(ctx, i); mp.t.perm.get(ctx, mp.t.pinv.get(ctx, i))
            a.fact(Implies(And(le(0, i), lt(i, mp.n)), ms.get(ctx, mp.E.get(ctx, i))), "the mark reaches every element")
            return
        cur = now(a); n = mp.n; pol = mp.pol; p = perm(a, mp.t)
        if g.k == "follow":
            a.log_is("del", g.log, If(eq(pol, NOOP), 0, n), dict(kind=lambda i: pol, p=lambda i: mp.E.get(ctx, p.get(ctx, i))), "the policy is applied to each element exactly once")
        else: a.log_is("del", g.log, 0, {}, "nothing else is deleted")
        st2 = state_own(a, g.stp)
        for f, x in g.sf.items(): st2.setf(f, x, "state field %s unchanged" % f)
        n_, p_ = cur["trace_next"].get(ctx, g.sec), cur["trace_prev"].get(ctx, g.sec)
        unlink_is(a, cur, st2, g.sec)
        st2.setf("_.trace_tail", If(eq(n_, 0), p_, ctx.ghosts["tailnow"]), "the chain's tail follows the deletion")
