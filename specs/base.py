"""Shared specification vocabulary: block headers, the trace chain, states, delete events."""
from cvf.core import *
from cvf.dsl import *

SZ = 1 << 31        # element counts and byte lengths are below this (the library indexes with int)
BIG = 1 << 40
RC, DEL, NOOP = 0, 1, 2
SECTF = ("cmp_stop_at_null", "resize_method", "retained", "gc_mark", "n_product", "in_degree", "state",
         "trace_next", "trace_prev", "mem_block_size", "cmp", "trace")

def sect(a): return a.map("SECT", "cee_sect")
def sect0(p): return simp(sub(p, 56))

def live(a, p, s=None):
    """p is a live cee block"""
    s = s or sect(a)
    return s.dom.get(a.ctx, sect0(p))

def own(a, p, recname, field, name="", size=None, extra=None):
    """the block whose data part starts at p: its own fields are owned here, its header cs stays in SECT"""
    off = a.tu.off(recname, field); cs = a.tu.off(recname, "cs")
    base = simp(sub(p, off))
    sz = a.tu.rec(recname).size if size is None else size
    cv = a.rec(base, recname, sz, name, hole="cs", anysize=size is False)
    s = sect(a)
    cv.sect = simp(add(base, cs)); cv.p = p
    if a.produce:
        a.ctx.assume(s.dom.get(a.ctx, cv.sect))
    return cv

def upd(s, x, **vals):
    """SECT snapshot with fields of block x replaced"""
    r = dict(s.fields)
    for f, v in vals.items(): r[f] = r[f].store(x, v)
    return r

def state_own(a, st):
    """struct cee_state as a block (header in SECT)"""
    cv = own(a, st, "_cee_state_header", "_", "state")
    return cv

def chain_ok(a, st):
    """what linking needs from the chain: its tail is a live block"""
    s = sect(a)
    t = st.f("_.trace_tail")
    a.fact(s.dom.get(a.ctx, t), "the chain's tail is a live block")
    return t

def link_ok(a, sec, st):
    """own position in the chain (consequence of the chain being well formed, proved in lemmas/chain.v)"""
    s = sect(a); ctx = a.ctx
    n, p = s["trace_next"].get(ctx, sec), s["trace_prev"].get(ctx, sec)
    tail = st.f("_.trace_tail")
    a.fact(And(s.dom.get(ctx, p), ne(p, sec), eq(s["trace_next"].get(ctx, p), sec)), "predecessor in the chain is live and points here")
    a.fact(Iff(eq(n, 0), eq(tail, sec)), "last in the chain exactly when it is the tail")
    if a.produce:
        ctx.assume(Implies(ne(n, 0), And(s.dom.get(ctx, n), ne(n, sec), eq(s["trace_prev"].get(ctx, n), sec), ne(n, p))))
        ctx.assume(ne(tail, p))       # the predecessor is not the last one: sec comes after it
    else:
        a.fact(Implies(ne(n, 0), And(s.dom.get(ctx, n), ne(n, sec))), "successor in the chain is live")
    return n, p, tail

class Fresh:
    """blocks made in a row, each linked at the tail of the state's chain; between them counts may change.
    g.s: SECT before, g.tail: the chain's tail before"""
    def __init__(self, a, g, sv):
        self.a, self.sv = a, sv
        self.f, self.dom, self.tail = dict(g.s.fields), g.s.dom, g.tail
    @property
    def fields(self): return self.f
    def __getitem__(self, k): return self.f[k]
    def block(self, p, recname, field, size, **vals):
        """vals: header fields (others zero; None: unspecified)"""
        a, sv = self.a, self.sv; ctx = a.ctx
        off = a.tu.off(recname, field); cs = a.tu.off(recname, "cs")
        base = simp(sub(p, off)); sec = simp(add(base, cs))
        want = dict.fromkeys(SECTF, 0)
        want.update(state=sv.p, trace_prev=self.tail, trace_next=0)
        want.update(vals)
        m = a.ex.getmap("SECT"); r = a.tu.rec("cee_sect")
        cv = a.rec(base, recname, size, recname.strip("_"), **(dict(hole="cs") if a.produce else {}))
        if a.produce:
            ctx.assume(And(Not(self.dom.get(ctx, sec)), ne(p, 0)))
            for k in SECTF:
                if want[k] is None: want[k] = ctx.fresh(k, 0, (1 << 64) - 1)
        else:
            if cv.ch.holes:
                # made by a callee: its header is in SECT already
                a.fact(m.domarr.get(ctx, sec), "the new block is live")
                a.fact(Not(self.dom.get(ctx, sec)), "the block is new")
            else:
                ctx.assume(Not(m.domarr.get(ctx, sec)))
                for f in r.fields:
                    m.fields[f[0]] = m.fields[f[0]].store(sec, a.ex.cellread(cv.ch, cs + f[1], a.tu.sizeof(f[2]), f[2], f[3]))
                m.domarr = m.domarr.store(sec, True)
                cv.ch.holes = [(cs, r.size, "SECT")]
            for k in SECTF:
                if want[k] is None: want[k] = m.fields[k].get(ctx, sec)
        self.f["trace_next"] = self.f["trace_next"].store(self.tail, sec)
        for k in SECTF: self.f[k] = self.f[k].store(sec, want[k])
        self.dom = self.dom.store(sec, True); self.tail = sec
        cv.sect, cv.p = sec, p
        return cv
    def hidden(self, sec, **vals):
        """a block made by a callee and kept inside what it gave back: its header only"""
        a, sv = self.a, self.sv; ctx = a.ctx; m = a.ex.getmap("SECT")
        want = dict.fromkeys(SECTF, 0); want.update(state=sv.p, trace_prev=self.tail, trace_next=0); want.update(vals)
        a.fact(m.domarr.get(ctx, sec), "the new block is live"); a.fact(Not(self.dom.get(ctx, sec)), "the block is new")
        for k in SECTF:
            if want[k] is None: want[k] = m.fields[k].get(ctx, sec)
        self.f["trace_next"] = self.f["trace_next"].store(self.tail, sec)
        for k in SECTF: self.f[k] = self.f[k].store(sec, want[k])
        self.dom = self.dom.store(sec, True); self.tail = sec
    def count(self, pol, e): self.f = counted(self.a, self, pol, e)
    def done(self):
        a = self.a
        a.map_is("SECT", self.f, self.dom)
        self.sv.setf("_.trace_tail", self.tail, "the new block is the chain's tail")

def newblock(a, g, p, recname, field, sv, size, **vals):
    """p is a fresh block of the given record, linked at the tail of the state's chain"""
    f = Fresh(a, g, sv)
    cv = f.block(p, recname, field, size, **vals)
    f.done()
    return cv

def faddr(a, name): return a.ex.faddr(name)

def policy_ok(a, pol, e, s, count=True):
    """requirements on an element handed to a container under a policy"""
    ctx = a.ctx
    x = sect0(e)
    a.fact(Implies(ne(pol, NOOP), s.dom.get(ctx, x)), "the element is a live block unless the policy is NOOP")
    if count:
        a.fact(Implies(And(eq(pol, RC), eq(s["retained"].get(ctx, x), 0)), lt(s["in_degree"].get(ctx, x), 65535)), "the element's reference count can still grow")

def counted(a, s, pol, e, dec=False):
    """SECT fields after cee_incr_indegree / cee_decr_indegree"""
    ctx = a.ctx; x = sect0(e)
    f = dict(s.fields)
    ind, ret = s["in_degree"].get(ctx, x), s["retained"].get(ctx, x)
    if dec:
        new = If(And(eq(pol, RC), eq(ret, 0), gt(ind, 0)), sub(ind, 1), ind)
        f["retained"] = f["retained"].store(x, If(eq(pol, DEL), 0, ret))
    else:
        new = If(And(eq(pol, RC), eq(ret, 0)), add(ind, 1), ind)
        f["retained"] = f["retained"].store(x, If(eq(pol, DEL), 1, ret))
    f["in_degree"] = f["in_degree"].store(x, new)
    return f

class FnptrLog:
    """handler recording indirect calls; results are prophecy values"""
    log = "call"

def keep_state(a, g0, sv):
    """the state's own fields other than the chain tail are unchanged"""
    for f in ("_.roots", "_.next_mark", "_.stack", "_.contexts"):
        sv.setf(f, g0.f(f) if not isinstance(g0, dict) else g0[f], "state field %s unchanged" % f)

# ---------------------------------------------------------------- deletion and marking
# Deleting a block by policy and passing a mark to it are ghost events.  What they do to memory the
# caller does not own is left open (header fields of other blocks may change, blocks may disappear);
# what the caller owns stays, its own block stays in the chain (ownership is acyclic: assumption A2).
K_REF, K_DEL = 0, 1

def now(a, g=None):
    """SECT content after the last deletion event (the start of the function if there was none)"""
    return a.ctx.ghosts.get("sectnow")

def havoc_sect(a, keep=(), only=None):
    """arbitrary change to headers of blocks not owned here; the chain stays well formed around owned blocks"""
    ctx = a.ctx
    m = a.ex.getmap("SECT")
    if m.ro: ctx.fail("block headers are outside the frame here", kind="frame")
    old = Snap(m)
    rec = m.rec
    names = only or [f[0] for f in rec.fields if f[0] not in ("state", "trace", "mem_block_size", "cmp", "n_product", "resize_method", "cmp_stop_at_null")]
    for f in rec.fields:
        if f[0] not in names: continue
        b = Base(ctx, f[0], a.tu.sizeof(f[2]), a.ex.sgn(f[2]), True)
        if f[3] is not None: b.bits = f[3][1]
        m.fields[f[0]] = b
    if only is None:
        dom = BBase(ctx, "live")
        m.domarr = dom
        ctx.addfact([dom], lambda t: Implies(dom.get(ctx, t), And(ge(t, 4096), le(t, 1 << 47))))
        ctx.addfact([dom], lambda t: Implies(dom.get(ctx, t), old.dom.get(ctx, t)))
    return old

def own_sects(a):
    """headers of the blocks owned as chunks"""
    out = []
    for c in a.ctx.heap:
        if isinstance(c, Chunk):
            for ho, hs, mp in c.holes: out.append((c, simp(add(c.base, ho))))
    return out

def find_state(a):
    for c in a.ctx.heap:
        if isinstance(c, Chunk) and c.name == "state": return c
    return None

def del_effect(a):
    """effect of deleting other blocks"""
    ctx = a.ctx
    st = find_state(a)
    if st is not None:
        if st.ro: ctx.fail("the state's chain is outside the frame here", kind="frame")
        o, ty, bit = field(a.tu, "_cee_state_header", "_.trace_tail")
        st.cells[o] = (8, False, ctx.fresh("tail", 0, 1 << 47))
    owned = own_sects(a)
    havoc_sect(a)
    m = a.ex.getmap("SECT")
    for c, x in owned:
        ctx.assume(m.domarr.get(ctx, x))
        if c is not st: own_link(a, x, st)
    if st is not None:
        sv = StView(a, st); ctx.assume(m.domarr.get(ctx, sv.f("_.trace_tail")))
        ctx.ghosts["tailnow"] = sv.f("_.trace_tail")
    ctx.ghosts["sectnow"] = Snap(m)

class StView:
    """field access to the state chunk without taking it"""
    def __init__(self, a, ch): self.a, self.ch, self.base = a, ch, ch.base; self.p = simp(add(ch.base, 56))
    def f(self, path):
        o, ty, bit = field(self.a.tu, "_cee_state_header", path)
        return self.a.ex.cellread(self.ch, o, self.a.tu.sizeof(ty), ty)

def own_link(a, sec, st):
    """assume the owned block is linked properly"""
    s = sect(a); ctx = a.ctx
    n, p = s["trace_next"].get(ctx, sec), s["trace_prev"].get(ctx, sec)
    ctx.assume(And(s.dom.get(ctx, p), ne(p, sec), eq(s["trace_next"].get(ctx, p), sec)))
    ctx.assume(Implies(ne(n, 0), And(s.dom.get(ctx, n), ne(n, sec), eq(s["trace_prev"].get(ctx, n), sec), ne(n, p))))
    if st is not None:
        tail = StView(a, st).f("_.trace_tail")
        ctx.assume(Iff(eq(n, 0), eq(tail, sec))); ctx.assume(ne(tail, p))

def marks(a):
    """ghost set: blocks the mark has been passed to"""
    g = a.ctx.ghosts
    if "marks" not in g:
        b = BBase(a.ctx, "marked"); g["marks"] = b
    return g["marks"]

def unlink_is(a, cur, sv, sec, what="the block"):
    """from snapshot cur, exactly sec has left the chain and the set of live blocks"""
    ctx = a.ctx
    n, p = cur["trace_next"].get(ctx, sec), cur["trace_prev"].get(ctx, sec)
    f = dict(cur.fields)
    f["trace_next"] = f["trace_next"].store(p, n)
    f["trace_prev"] = f["trace_prev"].store(n, If(eq(n, 0), cur["trace_prev"].get(ctx, n), p))
    a.map_is("SECT", f, cur.dom.store(sec, False), "%s leaves the chain, the rest of it stays linked" % what)

class ObjTrace(Contract):
    """trace function of a container type: (block, action)"""
    props = ("C07", "C08", "C09")
    nocall = True
    own_cmp = None
    def block(self, a, v): raise NotImplementedError
    def elems(self, a, g):
        """[(policy, element)] or (n, policy, array)"""
        return []
    def mark_elems(self, a, g): 
        e = self.elems(a, g)
        return e
    def pre(self, a, v, ta):
        s = sect(a); ctx = a.ctx
        g = self.block(a, v)
        sec = g.cv.sect
        stp = s["state"].get(ctx, sec)
        sv = state_own(a, stp)
        chain_ok(a, sv)
        link_ok(a, sec, sv)
        a.fact(And(le(0, ta), le(ta, 3)), "a trace action")
        g.s, g.st, g.sec, g.stp, g.ta = s, sv, sec, stp, ta
        g.tail = sv.f("_.trace_tail")
        g.sf = {f: sv.f(f) for f in ("_.roots", "_.next_mark", "_.stack", "_.contexts")}
        ctx.ghosts["sectnow"] = s; ctx.ghosts["tailnow"] = sv.f("_.trace_tail")
        g.log = a.log("del"); g.v = v
        if a.branch(eq(ta, 1)): g.k = "follow"
        elif a.branch(eq(ta, 0)): g.k = "nofollow"
        else:
            g.k = "mark"
            g.marks = marks(a)
        e = g.e = self.elems(a, g) if g.k != "mark" else self.mark_elems(a, g)
        if g.k != "nofollow":
            if isinstance(e, tuple):
                n, pol, arr = e
                if g.k == "follow":
                    a.forall([arr], lambda k: Implies(And(le(0, k), lt(k, n), ne(pol, NOOP)), And(ne(arr.get(ctx, k), 0), s.dom.get(ctx, sect0(arr.get(ctx, k))))))
                else:
                    a.forall([arr], lambda k: Implies(And(le(0, k), lt(k, n), ne(arr.get(ctx, k), 0)), s.dom.get(ctx, sect0(arr.get(ctx, k)))))
            else:
                for pol, x in e:
                    if g.k == "follow": a.fact(Implies(And(ne(pol, NOOP), ne(x, 0)), s.dom.get(ctx, sect0(x))))
                    else: a.fact(Implies(ne(x, 0), s.dom.get(ctx, sect0(x))))
        return g
    def produced(self, a, g):
        """callers' view of a deletion with CEE_TRACE_DEL_FOLLOW"""
        ctx = a.ctx; sec = g.sec
        st2 = state_own(a, g.stp)
        for f, x in g.sf.items(): st2.setf(f, x)
        st2.setf("_.trace_tail", g.tail)
        if isinstance(g.e, tuple):
            n, pol, arr = g.e
            if not a.branch(Or(eq(pol, NOOP), eq(n, 0))):
                a.log_is("del", a.log("del"), n, dict(kind=lambda k: pol, p=lambda k: arr.get(ctx, k))); del_effect(a)
        else:
            for pol, x in g.e:
                if a.branch(And(ne(pol, NOOP), ne(x, 0))):
                    ctx.ghosts["predel"] = sect(a); log_append(ctx, "del", kind=pol, p=x); del_effect(a)
        # the block itself is linked until now (ownership), then leaves the chain
        s = sect(a); ch = find_state(a); sv = StView(a, ch)
        ctx.assume(s.dom.get(ctx, sec)); own_link(a, sec, ch)
        n_, p_ = s["trace_next"].get(ctx, sec), s["trace_prev"].get(ctx, sec)
        tail = simp(If(eq(n_, 0), p_, sv.f("_.trace_tail")))
        f = dict(s.fields)
        f["trace_next"] = f["trace_next"].store(p_, n_)
        f["trace_prev"] = f["trace_prev"].store(n_, If(eq(n_, 0), s["trace_prev"].get(ctx, n_), p_))
        a.map_is("SECT", f, s.dom.store(sec, False))
        o, ty, bit = field(a.tu, "_cee_state_header", "_.trace_tail")
        ch.cells[o] = (8, False, tail)
        ctx.assume(sect(a).dom.get(ctx, tail))
        for c, x in own_sects(a):
            if c is not ch: own_link(a, x, ch)       # lemma chain: unlinking one block keeps the others linked
        ctx.ghosts["sectnow"] = sect(a); ctx.ghosts["tailnow"] = tail
    def keepmark(self, a, g, cur):
        ctx = a.ctx; m = a.ex.getmap("SECT")
        new = m.fields["gc_mark"]; want = sub(g.ta, 2)
        old = g.s["gc_mark"]
        return new, old, want
    def post(self, a, g, ret, v, ta):
        ctx = a.ctx
        if g.k in ("follow", "nofollow"):
            cur = now(a)
            e = g.e if g.k == "follow" else []
            if isinstance(e, tuple):
                n, pol, arr = e
                cnt = If(eq(pol, NOOP), 0, n)
                a.log_is("del", g.log, cnt, dict(kind=lambda k: pol, p=lambda k: arr.get(ctx, k)), "the delete policy is applied to each element exactly once")
            else:
                want = []
                for pol, x in e:
                    if a.branch(And(ne(pol, NOOP), ne(x, 0))): want.append((pol, x))
                l = ctx.logs.get("del")
                a.fact(eq(l.n if l else 0, add(g.log.n, len(want))), "the delete policy is applied to each element exactly once")
                for i, (pol, x) in enumerate(want):
                    k = simp(add(g.log.n, i))
                    a.fact(And(eq(l.get(ctx, "kind", k), pol), eq(l.get(ctx, "p", k), x)), "the delete policy is applied to element %d" % i)
            st2 = state_own(a, g.stp)
            for f, x in g.sf.items(): st2.setf(f, x, "state field %s unchanged" % f)
            n_, p_ = cur["trace_next"].get(ctx, g.sec), cur["trace_prev"].get(ctx, g.sec)
            unlink_is(a, cur, st2, g.sec)
            st2.setf("_.trace_tail", If(eq(n_, 0), p_, ctx.ghosts["tailnow"]), "the chain's tail follows the deletion")
            return
        # mark
        self.block_is(a, g)
        st2 = state_own(a, g.stp)
        for f, x in g.sf.items(): st2.setf(f, x, "state field %s unchanged" % f)
        m = a.ex.getmap("SECT")
        want = sub(ta, 2)
        a.fact(eq(m.fields["gc_mark"].get(ctx, g.sec), want), "the block carries the current mark")
        x = ctx.fresh("blk")
        a.fact(Or(eq(m.fields["gc_mark"].get(ctx, x), g.s["gc_mark"].get(ctx, x)), eq(m.fields["gc_mark"].get(ctx, x), want)), "marking sets only the current mark")
        a.map_is("SECT", {f: g.s[f] for f in SECTF if f != "gc_mark"}, g.s.dom, "marking changes nothing else in any header")
        ms = marks(a); e = g.e
        if isinstance(e, tuple):
            n, pol, arr = e
            k = ctx.fresh("k")
            a.fact(Implies(And(le(0, k), lt(k, n), ne(arr.get(ctx, k), 0)), ms.get(ctx, arr.get(ctx, k))), "the mark reaches every element")
        else:
            for i, (pol, y) in enumerate(e): a.fact(Implies(ne(y, 0), ms.get(ctx, y)), "the mark reaches held block %d" % i)
    def block_is(self, a, g): raise NotImplementedError

    # loop invariants for the usual element loops
    def del_loop(self, a, L, i=None):
        """elements below i have been handed to their policy"""
        g = L.g; ctx = a.ctx
        i = L.v("i") if i is None else i
        n, pol, arr = g.e
        a.fact(And(le(0, i), le(i, n)), "i within the elements")
        self.block_is(a, g)
        st2 = state_own(a, g.stp)
        for f, x in g.sf.items(): st2.setf(f, x, "state field %s unchanged" % f)
        a.log_is("del", g.log, If(eq(pol, NOOP), 0, i), dict(kind=lambda k: pol, p=lambda k: arr.get(ctx, k)))
        a.maps_touched.add("SECT")
        m = a.ex.getmap("SECT")
        if a.produce:
            havoc_sect(a)
            ctx.assume(m.domarr.get(ctx, g.sec)); own_link(a, g.sec, find_state(a))
            ctx.assume(m.domarr.get(ctx, st2.f("_.trace_tail")))
            ctx.ghosts["sectnow"] = Snap(m); ctx.ghosts["tailnow"] = st2.f("_.trace_tail")
        else:
            a.fact(m.domarr.get(ctx, g.sec), "the container stays alive")
            self.linked(a, g.sec, st2)
    def linked(self, a, sec, sv):
        s = sect(a); ctx = a.ctx
        n, p = s["trace_next"].get(ctx, sec), s["trace_prev"].get(ctx, sec)
        a.fact(And(s.dom.get(ctx, p), ne(p, sec), eq(s["trace_next"].get(ctx, p), sec)), "predecessor in the chain is live and points here")
        a.fact(Implies(ne(n, 0), And(s.dom.get(ctx, n), ne(n, sec), eq(s["trace_prev"].get(ctx, n), sec), ne(n, p))), "successor in the chain is live and points here")
        a.fact(Iff(eq(n, 0), eq(sv.f("_.trace_tail"), sec)), "last in the chain exactly when it is the tail")
        a.fact(s.dom.get(ctx, sv.f("_.trace_tail")), "the chain's tail is a live block")
    def mark_loop(self, a, L, i=None):
        g = L.g; ctx = a.ctx
        i = L.v("i") if i is None else i
        n, pol, arr = g.e
        a.fact(And(le(0, i), le(i, n)), "i within the elements")
        self.block_is(a, g)
        want = sub(g.ta, 2)
        a.maps_touched.add("SECT")
        m = a.ex.getmap("SECT")
        old = g.s["gc_mark"]
        if a.produce:
            havoc_sect(a, only=["gc_mark"])
            new = m.fields["gc_mark"]
            ctx.addfact([new], lambda t: Or(eq(new.get(ctx, t), old.get(ctx, t)), eq(new.get(ctx, t), want)))
            ctx.assume(eq(new.get(ctx, g.sec), want))
            ctx.ghosts["marks"] = ms = BBase(ctx, "marked")
            ctx.addfact([getattr(x, "under", x) for x in ctx.arr_bases(getattr(arr, "under", arr))], lambda k: Implies(And(le(0, k), lt(k, i), ne(arr.get(ctx, k), 0)), ms.get(ctx, arr.get(ctx, k))))
        else:
            new = m.fields["gc_mark"]
            x = ctx.fresh("blk")
            a.fact(Or(eq(new.get(ctx, x), old.get(ctx, x)), eq(new.get(ctx, x), want)), "marking sets only the current mark")
            a.fact(eq(new.get(ctx, g.sec), want), "the block carries the current mark")
            a.map_is("SECT", {f: g.s[f] for f in SECTF if f != "gc_mark"}, g.s.dom, "marking changes nothing else in any header")
            ms = marks(a); k = ctx.fresh("k")
            a.fact(Implies(And(le(0, k), lt(k, i), ne(arr.get(ctx, k), 0)), ms.get(ctx, arr.get(ctx, k))), "the mark reached every element before i")
    def elem_loop(self, a, L):
        if L.g.k == "mark": return self.mark_loop(a, L)
        return self.del_loop(a, L)

# ---------------------------------------------------------------- texts
def text_in(a, p, name="text", maxlen=None):
    """a readable NUL-terminated text at p: (array, length), the array starting at p"""
    ctx = a.ctx
    if not a.produce:
        arr, i, n = a.ex.cstr(p, name)
        if maxlen is not None: a.fact(lt(n, maxlen), "%s is shorter than its limit" % name)
        if cval(i) == 0: return arr, n
        r = Fun(lambda k: arr.get(ctx, simp(add(i, k))), 1, True); r.under = arr
        return r, n
    n = ctx.fresh("len_" + name, 0, (maxlen or SZ) - 1)
    cv = a.chunk(p, simp(add(n, 1)), name, ro=True); arr = cv.seg(0, 1, simp(add(n, 1)), CH, name=name); cv.ch.ro = True
    ctx.assume(eq(arr.get(ctx, n), 0)); cv.nul(n)
    ctx.addfact([arr], lambda t: Implies(And(le(0, t), lt(t, n)), ne(arr.get(ctx, t), 0)))
    ctx.__dict__.setdefault("_strlen", {})[("strlen", id(arr), 0)] = n; ctx.keep.append((arr, 0))
    return arr, n

def prod_nonneg(ctx, x, y, label="a product of non-negative numbers"):
    """lemma x*y >= 0 (its premises are obligations; the product is expanded)"""
    ctx.prove(And(ge(x, 0), ge(y, 0)), label)
    ctx.assume(ge(simp(mul(x, y)), 0))
    ctx.assume(T(x) * T(y) >= 0)
