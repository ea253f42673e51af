"""map.c (C04; deletion and marking C07-C09), given the tree's contract.
A map holds the entries (K[i], V[i]), i < n, in insertion order; no two keys compare equal.  Entry i lives in
the tuple T[i]; the tree's items are the tuples, the list records the keys in order."""
from .base import *
from .list import list_own, list_is, new_list, H as LH
from .tree import *

MH = "_cee_map_header"; TUP = "_cee_tuple_header"

def distinct(a, R, n, K):
    """no two of K[0..n) compare equal"""
    ctx = a.ctx
    if a.produce:
        INV = Base(ctx, "INV", 8, False, False)
        bs = ctx.arr_bases(getattr(K, "under", K))
        ctx.addfact(bs, lambda i: Implies(And(le(0, i), lt(i, n)), eq(INV.get(ctx, R.get(ctx, K.get(ctx, i))), i)))
        return
    i, j = ctx.fresh("i"), ctx.fresh("j")
    a.fact(Implies(And(le(0, i), lt(i, j), lt(j, n)), ne(R.get(ctx, K.get(ctx, i)), R.get(ctx, K.get(ctx, j)))), "no two keys compare equal")

def opentuple(a, t, ix):
    """the tuple of entry ix as a block owned here"""
    ctx = a.ctx
    for i, c in t.opened:
        if i is ix or ctx.same(i, ix): return c
    x = t.T.get(ctx, ix); s = sect(A_(a))
    base = simp(sub(x, a.tu.off(TUP, "_"))); cs = a.tu.off(TUP, "cs")
    c = Chunk(base, a.tu.rec(TUP).size, "heap", True, "tuple", init=True)
    ctx.addchunk(c)
    c.holes = [(cs, a.tu.rec("cee_sect").size, "SECT")]
    o = a.tu.off(TUP, "_")
    c.cells[o] = (8, False, t.K.get(ctx, ix)); c.cells[o + 8] = (8, False, t.V.get(ctx, ix))
    c.cells[0] = (4, False, t.kp); c.cells[4] = (4, False, t.vp)
    sec = sect0(x)
    ctx.assume(And(ne(t.K.get(ctx, ix), x), ne(t.V.get(ctx, ix), x)))      # a tuple does not hold itself (A2)
    ctx.assume(And(s.dom.get(ctx, sec), eq(s["trace"].get(ctx, sec), faddr(a, "_cee_tuple_trace")), eq(s["state"].get(ctx, sec), t.st)))
    st = find_state(a)
    if st is not None: own_link(A_(a), sec, st)
    t.opened.append((ix, c))
    return c
def A_(a):
    x = A(a.ex, True); x.loop = True; return x
def closetuple(a, t, ix, c):
    """the owned block c goes back into the map as entry ix"""
    ctx = a.ctx; o = a.tu.off(TUP, "_")
    if c not in ctx.heap:
        r = ctx.find(simp(c.base))      # a callee's contract has given it back as another chunk
        if r is None or cval(simp(r[1])) != 0 or r[0].kind != "heap": ctx.fail("a tuple of the map is gone", kind="own")
        c = r[0]
    if c.ro: return False
    ex = a.ex
    a.fact(And(eq(ex.cellread(c, 0, 4, U32) if not c.segs else ex.load(c.base, U32), t.kp), eq(ex.cellread(c, 4, 4, U32) if not c.segs else ex.load(simp(add(c.base, 4)), U32), t.vp)), "the entry's delete policies are the map's")
    s = sect(a); sec = simp(add(c.base, a.tu.off(TUP, "cs")))
    a.fact(And(s.dom.get(ctx, sec), eq(s["trace"].get(ctx, sec), faddr(a, "_cee_tuple_trace"))), "the entry's tuple is live")
    t.K = t.K.store(ix, ex.cellread(c, o, 8, U64)); t.V = t.V.store(ix, ex.cellread(c, o + 8, 8, U64))
    ctx.heap.remove(c)
    return True

def map_own(a, m, entries=True, lst=True):
    """the map at m with its entries"""
    ctx = a.ctx
    cv = own(a, m, MH, "_", "map")
    g = G(cv=cv, m=m, cmp=cv.f("cmp"), n=cv.f("size"), kp=cv.f("del_policies._.key"), vp=cv.f("del_policies._.val"),
          root=cv.get(a.tu.off(MH, "_"), U64), list=cv.f("insertion_ordered_keys"), ta=cv.f("ta"))
    hdr = cv.base; rootp = simp(m)
    s = sect(a); g.sec = cv.sect; g.st = s["state"].get(ctx, g.sec)
    a.fact(lt(g.n, SZ - 1), "fewer than 2^31 entries")
    a.fact(And(le(0, g.kp), le(g.kp, 2), le(0, g.vp), le(g.vp, 2)), "valid delete policies")
    R = g.R = rank(a, g.cmp)
    if lst:
        l = g.l = list_own(a, g.list)
        a.fact(eq(l.pol, NOOP), "the order list does not own the keys"); a.fact(eq(l.n, g.n), "the order list has every key")
        K = g.K = l.arr
    else: K = g.K = Base(ctx, "keys", 8, False)
    if a.produce:
        T = g.T = Base(ctx, "tuples", 8, False); V = g.V = Base(ctx, "values", 8, False)
        distinct(a, R, g.n, K)
        n = g.n
        t = mktree(a, rootp, g.root, n, T, None, faddr(a, "_cee_map_cmp"), hdr, K=K, V=V, kp=g.kp, vp=g.vp, st=g.st, R=R, deps=[K], m=m)
        hook_map(a, t)
        g.t = t
    else:
        p = find_tree(a, rootp)
        if p is None: ctx.fail("the map's tree is owned here", kind="own")
        if p.ro: ctx.fail("the map is outside the frame here", kind="frame")
        g.t = t = p.args; ctx.heap.remove(p)
        closeall(a, t); unlend(a, t)
        a.fact(And(eq(t.n, g.n), eq(t.root, g.root), eq(t.cmp, faddr(a, "_cee_map_cmp")), eq(t.cxt, hdr), eq(t.kp, g.kp), eq(t.vp, g.vp)), "the tree is the map's")
        if lst: a.arreq(t.K, K, 0, g.n, "tree and order list hold the same keys")
        g.V = t.V; g.T = t.T
        distinct(a, R, g.n, K)
    return g

def closeall(a, t):
    for ix, c in t.opened:
        if not closetuple(a, t, ix, c): a.ctx.fail("an entry of the map is outside the frame here", kind="frame")
    t.opened = []

def hook_map(a, t):
    ctx = a.ctx
    t.rk = lambda i: t.R.get(ctx, t.K.get(ctx, i))
    def added(a, t, key, n):
        """a new tuple has gone into the tree"""
        ch = None
        r = ctx.find(simp(key))
        if r is None or r[0].kind != "heap" or r[0].ro: ctx.fail("an item given to the map's tree is a tuple owned here", kind="own")
        t.K = t.K.store(n, a.ex.load(key, P)); t.V = t.V.store(n, a.ex.load(simp(add(key, 8)), P))
        t.opened.append((n, r[0])); t.deps = [t.K]
    def removed(a, t, item, ix):
        n = t.n
        c = opentuple(a, t, ix)
        t.opened = [(i, x) for i, x in t.opened if x is not c]
        if t.opened: raise Annot("several entries are open while one is removed")
        for f in ("K", "V"): setattr(t, f, getattr(t, f).copyin(ix, getattr(t, f), simp(add(ix, 1)), simp(sub(sub(n, 1), ix))))
    def visited(a, t):
        """a walk leaves the entries as they are"""
        o = a.tu.off(TUP, "_"); b = A(a.ex, False)
        for ix, c in t.opened:
            if c not in ctx.heap: ctx.fail("a tuple of the map is gone", kind="own")
            b.fact(And(eq(a.ex.cellread(c, o, 8, U64), t.K.get(ctx, ix)), eq(a.ex.cellread(c, o + 8, 8, U64), t.V.get(ctx, ix))), "a walk leaves the entries as they are")
            ctx.heap.remove(c)
        t.opened = []
    t.added, t.removed, t.visited = added, removed, visited
    def hook(ex, addr, hint):
        from cvf.dsl import A
        for i, item, node in t.seen:
            d = cval(simp(sub(addr, item)))
            if d is not None and -96 <= d < 16:
                if any(j is i for j, c in t.opened): return False
                opentuple(A(ex, True), t, i); return True
        return False
    a.ex.auto.append(hook)

def map_is(a, g, m, n, K, V, ta=None, T=None):
    """the map at m (as described by g before) now has exactly the n entries (K[i], V[i])"""
    ctx = a.ctx
    cv = own(a, m, MH, "_", "map")
    cv.setf("size", n, "the number of entries is exact"); cv.setf("cmp", g.cmp, "the comparison is kept"); cv.setf("insertion_ordered_keys", g.list, "the order list is kept")
    cv.setf("del_policies._.key", g.kp, "the key policy is kept"); cv.setf("del_policies._.val", g.vp, "the value policy is kept")
    cv.setf("ta", g.ta if ta is None else ta)
    if T is None: T = g.T
    root = cv.get(a.tu.off(MH, "_"), U64)
    r = list_is(a, g.list, n, K, NOOP)
    R = rank(a, g.cmp)
    if a.produce:
        distinct(a, R, n, K)
        t = mktree(a, simp(m), root, n, T, None, faddr(a, "_cee_map_cmp"), cv.base, K=K, V=V, kp=g.kp, vp=g.vp, st=g.st, R=R, deps=[K], m=m)
        hook_map(a, t)
        return
    p = find_tree(a, simp(m))
    if p is None: ctx.fail("the map's tree is owned here", kind="own")
    if p.ro: ctx.fail("the map is outside the frame here", kind="frame")
    t = p.args; ctx.heap.remove(p)
    closeall(a, t); unlend(a, t)
    a.fact(And(eq(t.n, n), eq(t.root, root)), "the tree has exactly as many items")
    a.arreq(t.K, K, 0, n, "the entries have exactly the specified keys")
    a.arreq(t.V, V, 0, n, "the entries have exactly the specified values")
    a.arreq(t.T, T, 0, n, "the entries are exactly the specified tuples")
    distinct(a, R, n, K)

@register
class MapCmp(Contract):
    """compares two tuples by their keys"""
    fn = "_cee_map_cmp"; props = ("C04",)
    def pre(self, a, cxt, v1, v2):
        cv = a.rec(cxt, MH, None, "map", ro=True)
        g = G(cmp=cv.f("cmp"))
        c1 = a.chunk(v1, 16, "tuple 1", ro=True); c2 = a.chunk(v2, 16, "tuple 2", ro=True)
        g.k1, g.k2 = c1.get(0, U64), c2.get(0, U64); g.R = rank(a, g.cmp)
        return g
    def fnptr(self, ex, target, vals, rt):
        if not ex.ctx.same(target, self.g.cmp): return NotImplemented
        return cmp_call(ex, target, vals[0], vals[1])
    def post(self, a, g, ret, cxt, v1, v2):
        ctx = a.ctx
        a.fact(sign_is(ret, g.R.get(ctx, g.k1), g.R.get(ctx, g.k2)), "the result orders the tuples by their keys")
    def rankof(self, a, cxt, x):
        """as the tree's operations use it"""
        cmp = a.ex.load(simp(add(cxt, field(a.tu, MH, "cmp")[0])), P)
        return rank(a, cmp).get(a.ctx, a.ex.load(x, P))
COMPARERS["_cee_map_cmp"] = MapCmp()

class MapSpec(Contract):
    props = ("C04",)
    def fnptr(self, ex, target, vals, rt):
        g = self.g.mp
        if ex.ctx.same(target, g.cmp): return cmp_call(ex, target, vals[0], vals[1])
        return NotImplemented
    def same(self, a, g, m):
        map_is(a, g.mp, m, g.mp.n, g.mp.K, g.mp.V)
        a.map_is("SECT", g.s.fields, g.s.dom)
    def lookup(self, a, g, key):
        """index of the entry comparing equal to key, or None"""
        ctx = a.ctx; mp = g.mp; R = mp.R
        r = R.get(ctx, key)
        if a.produce:
            b = ctx.fresh("present", 0, 1)
            if a.branch(eq(b, 1)):
                ix = ctx.fresh("ix", 0, SZ); ctx.assume(And(lt(ix, mp.n), eq(R.get(ctx, mp.K.get(ctx, ix)), r))); return ix
            n, K = mp.n, mp.K
            ctx.addfact(ctx.arr_bases(getattr(K, "under", K)), lambda k: Implies(And(le(0, k), lt(k, n)), ne(R.get(ctx, K.get(ctx, k)), r)))
            return None
        raise Exception("lookup is for producing")

@register
class MapSize(MapSpec):
    fn = "cee_map_size"
    def pre(self, a, m):
        if a.branch(eq(m, 0)): return G(z=True)
        return G(z=False, s=sect(a), mp=map_own(a, m))
    def post(self, a, g, ret, m):
        if g.z: a.fact(eq(ret, 0), "size of NULL is 0"); return
        a.fact(eq(ret, g.mp.n), "cee_map_size is the number of distinct keys")
        self.same(a, g, m)

@register
class MapFind(MapSpec):
    """found: the entry is prophesied in the precondition (which entry compares equal to the key, if any)"""
    fn = "cee_map_find"
    def pre(self, a, m, key):
        if a.branch(eq(key, 0)): return G(z=True)
        return G(z=False, s=sect(a), mp=map_own(a, m))
    def post(self, a, g, ret, m, key):
        if g.z: a.fact(eq(ret, 0), "NULL is no key"); return
        ctx = a.ctx; mp = g.mp; R = mp.R; r = R.get(ctx, key)
        if a.produce:
            ix = self.lookup(a, g, key); g.ix = ix
            ret = 0 if ix is None else mp.V.get(ctx, ix)
            self.same(a, g, m); return ret
        t = mp.t; ix = getattr(t, "last", None)
        if ix is None:
            k = ctx.fresh("k")
            a.fact(eq(ret, 0), "NULL when no key compares equal")
            a.fact(Implies(And(le(0, k), lt(k, mp.n)), ne(R.get(ctx, mp.K.get(ctx, k)), r)), "no key of the map compares equal")
        else:
            a.fact(And(le(0, ix), lt(ix, mp.n), eq(R.get(ctx, mp.K.get(ctx, ix)), r)), "the entry found has an equal key")
            a.fact(eq(ret, mp.V.get(ctx, ix)), "the value stored for the key is returned")
        self.same(a, g, m)

def mapblock(fr, ret, kp, vp, cmp):
    """a new, empty map and its order list"""
    a = fr.a; ctx = a.ctx
    off = a.tu.off(MH, "insertion_ordered_keys"); base = simp(sub(ret, a.tu.off(MH, "_")))
    lp = ctx.fresh("order", 4096, 1 << 47) if a.produce else a.ex.load(simp(add(base, off)), P)
    from .list import listblock
    listblock(fr, lp, NOOP, 16)
    sz = a.tu.rec(MH).size
    cv = fr.block(ret, MH, "_", sz, mem_block_size=sz, trace=faddr(a, "_cee_map_trace"), n_product=2)
    cv.setf("insertion_ordered_keys", lp); cv.setf("size", 0, "a new map is empty"); cv.setf("cmp", cmp, "the comparison given")
    cv.setf("del_policies._.key", kp, "the key policy given"); cv.setf("del_policies._.val", vp, "the value policy given")
    cv.set(a.tu.off(MH, "_"), U64, 0, "the tree is empty")
    if a.produce:
        R = rank(a, cmp); K = Base(ctx, "keys", 8, False); V = Base(ctx, "values", 8, False); T = Base(ctx, "tuples", 8, False)
        t = mktree(a, simp(ret), 0, 0, T, None, faddr(a, "_cee_map_cmp"), cv.base, K=K, V=V, kp=kp, vp=vp, st=fr.sv.p, R=R, deps=[K], m=ret)
        hook_map(a, t)
    else:
        p = find_tree(a, simp(ret))
        if p is not None: a.fact(eq(p.args.n, 0), "the tree is empty"); a.ctx.heap.remove(p)
    return cv

@register
class MapMkE(Contract):
    fn = "cee_map_mk_e"; props = ("C04", "C07")
    def pre(self, a, st, o, cmp):
        s = sect(a); sv = state_own(a, st); tail = chain_ok(a, sv)
        oc = a.chunk(o, 8, "policies", ro=True)
        return self.g_(a, s, sv, tail, oc.get(0, U32), oc.get(4, U32))
    def g_(self, a, s, sv, tail, kp, vp):
        a.fact(And(le(0, kp), le(kp, 2), le(0, vp), le(vp, 2)), "valid delete policies")
        return G(s=s, st=sv, tail=tail, kp=kp, vp=vp)
    def post(self, a, g, ret, st, o, cmp):
        sv = state_own(a, st); keep_state(a, g.st, sv)
        fr = Fresh(a, g, sv); mapblock(fr, ret, g.kp, g.vp, cmp); fr.done()
@register
class MapMk(MapMkE):
    fn = "cee_map_mk"
    def pre(self, a, st, cmp):
        s = sect(a); sv = state_own(a, st); tail = chain_ok(a, sv)
        return self.g_(a, s, sv, tail, RC, RC)
    def post(self, a, g, ret, st, cmp): return MapMkE.post(self, a, g, ret, st, None, cmp)

def tuple_count(a, cur, pol, e): return FSect(counted(a, cur, pol, e), cur.dom)
class FSect:
    def __init__(self, fields, dom): self.fields, self.dom = fields, dom
    def __getitem__(self, f): return self.fields[f]

@register
class MapAddE(MapSpec):
    """a new key: one entry more; an equal key: its value is replaced (by the merged one), the key passed is given up.
    The value's count changes only with what the map holds."""
    fn = "cee_map_add_e"; props = ("C04", "C07", "C08")
    merging = True
    def pre(self, a, m, key, value, c=0, merge=0):
        ctx = a.ctx
        if a.branch(eq(key, 0)): return G(z=True)
        mp = map_own(a, m); s = sect(a)
        sv = state_own(a, mp.st); tail = chain_ok(a, sv)
        own_links(a, mp, sv)
        policy_ok(a, mp.kp, key, s)
        policy_ok(a, mp.vp, value, s)
        for pol, e in ((mp.kp, key), (mp.vp, value)):
            a.fact(Implies(eq(pol, RC), lt(s["in_degree"].get(ctx, sect0(e)), 65000)), "reference counts can still grow")
        n = mp.n
        if a.produce: T = mp.t.T; ctx.addfact([T], lambda k: Implies(And(le(0, k), lt(k, n)), s.dom.get(ctx, sect0(T.get(ctx, k)))))
        # a value that leaves the map is a live block
        a.forall([mp.V], lambda k: Implies(And(le(0, k), lt(k, n)), value_ok(a, mp.vp, mp.V.get(ctx, k), s)), "values held are live blocks (retained under DEL)")
        g = G(z=False, s=s, mp=mp, st=sv, tail=tail, key=key, value=value, c=c, merge=merge, lg=a.log("del"))
        if not a.produce: self.keyblock(a, g, key)
        g.mv = ctx.fresh("merged", 0, 1 << 47) if not is0(merge) else value
        if not is0(merge):
            s_ = s
            a.ctx.assume(Implies(ne(mp.vp, NOOP), s.dom.get(ctx, sect0(g.mv))))
            a.ctx.assume(Implies(And(eq(mp.vp, RC), eq(s["retained"].get(ctx, sect0(g.mv)), 0)), lt(s["in_degree"].get(ctx, sect0(g.mv)), 65000)))
        # prophecy: which value will be replaced (when the key is there)
        return g
    def keyblock(self, a, g, key):
        """a key block owned by the caller is handed over to the map"""
        g.kc = None
        if is0(g.mp.kp) or a.ctx.valid(ne(g.mp.kp, NOOP)):
            from .common import owned_block
            ch = owned_block(a, key)
            if ch is not None: a.ctx.heap.remove(ch)
    def fnptr(self, ex, target, vals, rt):
        g = self.g
        if ex.ctx.same(target, g.mp.cmp): return cmp_call(ex, target, vals[0], vals[1])
        if ex.ctx.same(target, g.merge):
            a = A_(ex_(ex)); a.produce = False
            a.fact(eq(vals[0], g.c), "the merge function gets its context"); a.fact(eq(vals[2], g.value), "the merge function gets the new value")
            log_append(ex.ctx, "merge", old=vals[1])
            return g.mv
        return NotImplemented
    def counts(self, a, g, old, nv):
        """counts once the value has been replaced (the new tuple t not considered)"""
        mp = g.mp; cur = FSect(dict(g.s.fields), g.s.dom)
        cur = tuple_count(a, cur, mp.kp, g.key)
        cur2 = tuple_count(a, cur, mp.vp, nv)
        cur2 = FSect(counted(a, cur2, mp.vp, old, True), cur2.dom)
        same = eq(nv, old)
        f = dict(cur.fields)
        for x in ("in_degree", "retained"):
            p, q = cur.fields[x], cur2.fields[x]
            f[x] = Fun(lambda i, p=p, q=q: If(same, p.get(a.ctx, i), q.get(a.ctx, i)), p.sz, p.signed)
        return f
    def post(self, a, g, ret, m, key, value, c=0, merge=0):
        ctx = a.ctx
        if g.z: a.fact(eq(ret, 0), "NULL is no key"); return
        mp = g.mp; R = mp.R; r = R.get(ctx, key); n = mp.n; s = g.s
        if a.produce: ix = self.lookup(a, g, key); g.ix = ix
        else:
            p = find_tree(a, simp(m))
            if p is None: ctx.fail("the map's tree is owned here", kind="own")
            ix = getattr(p.args, "last", None); inner = getattr(p.args, "newtuple", None)
        sv = state_own(a, mp.st); keep_state(a, g.st, sv)
        if ix is None:
            if not a.produce:
                k = ctx.fresh("k")
                a.fact(Implies(And(le(0, k), lt(k, n)), ne(R.get(ctx, mp.K.get(ctx, k)), r)), "a key is added only if none compares equal")
            a.fact(eq(ret, 0), "NULL for a new key")
            if a.produce: tp = ctx.fresh("tuple", 4096, 1 << 47)
            else: tp = inner if inner is not None else mp.t.T.get(ctx, n)
            fr = Fresh(a, g, sv)
            if not a.produce and inner is not None:
                sz = a.tu.rec(TUP).size
                fr.hidden(sect0(tp), mem_block_size=sz, trace=faddr(a, "_cee_tuple_trace"), n_product=None)
            else:
                tupleblock(fr, tp, key, value, mp.kp, mp.vp)
                if not a.produce: a.ctx.heap.append(fr.last)     # it stays an entry of the map
                else: a.ctx.heap.remove(fr.last)
            fr.count(mp.kp, key); fr.count(mp.vp, value)
            fr.done()
            map_is(a, mp, m, simp(add(n, 1)), mp.K.store(n, key), mp.V.store(n, value), mp.ta, mp.T.store(n, tp))
            if a.produce:
                t2 = find_tree(a, simp(m)).args; t2.newtuple = tp; ctx.ghosts["map_added"] = None; ctx.assume(eq(t2.T.get(ctx, n), tp))
            a.log_is("del", g.lg, 0, {}, "nothing is deleted")
            return 0 if a.produce else None
        old = mp.V.get(ctx, ix); nv = g.mv
        if is0(merge): nv = value
        elif cval(merge) is None: nv = If(eq(merge, 0), value, g.mv)
        if not a.produce:
            a.fact(And(le(0, ix), lt(ix, n), eq(R.get(ctx, mp.K.get(ctx, ix)), r)), "the entry changed has an equal key")
            a.fact(eq(ret, old), "the replaced value is returned")
        map_is(a, mp, m, n, mp.K, mp.V.store(ix, nv), mp.ta)
        if a.produce: find_tree(a, simp(m)).args.last = ix; ctx.ghosts["map_added"] = ix
        # the tuple made for the lookup is deleted: the key passed is given up according to its policy
        samek = eq(key, mp.K.get(ctx, ix))
        giveup = And(ne(mp.kp, NOOP), Not(And(samek, eq(mp.kp, DEL))))
        f = self.counts(a, g, old, nv)
        if a.produce:
            if a.branch(giveup):
                a.map_is("SECT", f, s.dom); sv.setf("_.trace_tail", g.tail); ctx.ghosts["predel"] = sect(a)
                a.log_is("del", g.lg, 1, dict(kind=lambda k: mp.kp, p=lambda k: key)); del_effect(a)
            else:
                f["trace_next"] = f["trace_next"].store(g.tail, 0)
                a.map_is("SECT", f, s.dom); sv.setf("_.trace_tail", g.tail)
            return old
        if a.branch(giveup):
            a.log_is("del", g.lg, 1, dict(kind=lambda k: mp.kp, p=lambda k: key), "the key passed is given up once, by the key policy")
            pre = ctx.ghosts.get("predel"); x = ctx.fresh("blk")
            for fl in ("in_degree", "retained"):
                a.fact(Implies(s.dom.get(ctx, x), eq(pre[fl].get(ctx, x), f[fl].get(ctx, x))), "%s changes exactly by what the map takes and drops" % fl)
        else:
            a.log_is("del", g.lg, 0, {}, "nothing but the lookup tuple is deleted")
            a.map_is("SECT", {k: v for k, v in f.items() if k not in ("trace_next", "trace_prev")}, s.dom, "headers change exactly by what the map takes and drops")
            sv.setf("_.trace_tail", g.tail, "the chain is as before")
            x = ctx.fresh("blk")
            cur = sect(a)
            a.fact(Implies(And(s.dom.get(ctx, x), ne(x, g.tail)), eq(cur["trace_next"].get(ctx, x), s["trace_next"].get(ctx, x))), "the chain is as before")
            a.fact(eq(cur["trace_next"].get(ctx, g.tail), 0), "the tail is last")
            a.fact(Implies(s.dom.get(ctx, x), eq(cur["trace_prev"].get(ctx, x), s["trace_prev"].get(ctx, x))), "the chain is as before")
def ex_(ex):
    class X: pass
    x = X(); x.ex = ex; return x
def is0(x): return cval(x) == 0 if not isinstance(x, bool) else not x
def value_ok(a, pol, v, s):
    ctx = a.ctx; x = sect0(v)
    return And(Implies(ne(pol, NOOP), s.dom.get(ctx, x)), Implies(eq(pol, DEL), eq(s["retained"].get(ctx, x), 1)))
def own_links(a, mp, sv):
    """the map's own blocks are linked in the chain"""
    if a.produce:
        own_link(A_(a), mp.sec, sv.ch)
        if hasattr(mp, "l"): own_link(A_(a), mp.l.cv.sect, sv.ch)
def tupleblock(fr, tp, k, v, kp, vp):
    a = fr.a; sz = a.tu.rec(TUP).size
    cv = fr.block(tp, TUP, "_", sz, mem_block_size=sz, trace=faddr(a, "_cee_tuple_trace"), n_product=None)
    cv.setf("_[0]", k, "the key"); cv.setf("_[1]", v, "the value")
    arr = cv.seg(0, 4, 2, U32) if cv.ch.segs else None
    for i, p in enumerate((kp, vp)):
        if arr is not None: a.fact(eq(arr.get(a.ctx, i), p), "the policies are the map's")
        else: cv.setf("del_policies[%d]" % i, p, "the policies are the map's")
    fr.last = cv.ch
    return cv

@register
class MapAdd(MapAddE):
    fn = "cee_map_add"
    def pre(self, a, m, key, value): return MapAddE.pre(self, a, m, key, value, 0, 0)
    def post(self, a, g, ret, m, key, value): return MapAddE.post(self, a, g, ret, m, key, value, 0, 0)

# ---------------------------------------------------------------------------------------------- removal
@register
class MapKeyDelete(MapSpec):
    """the order list loses the key comparing equal to the one given"""
    fn = "cee_map_ordered_key_delete"
    loops = {("cee_map_ordered_key_delete", 0): "scan"}
    def pre(self, a, b, key):
        ctx = a.ctx
        cv = a.rec(b, MH, None, "map", ro=True)
        cmp, lp = cv.f("cmp"), cv.f("insertion_ordered_keys")
        l = list_own(a, lp); a.fact(eq(l.pol, NOOP), "the order list does not own the keys"); a.fact(lt(l.n, SZ - 1))
        R = rank(a, cmp); s = sect(a)
        g = G(mp=G(cmp=cmp), l=l, R=R, r=R.get(ctx, key), lp=lp, s=s, cv=cv)
        g.ix = ctx.fresh("kix", 0, SZ)
        if a.produce: ctx.assume(And(lt(g.ix, l.n), eq(R.get(ctx, l.arr.get(ctx, g.ix)), g.r)))
        else:
            ix = ctx.ghosts.get("removed_ix")
            if ix is None: raise Annot("which key is removed is not known")
            ctx.assume(eq(g.ix, ix))
            a.fact(And(le(0, g.ix), lt(g.ix, l.n), eq(R.get(ctx, l.arr.get(ctx, g.ix)), g.r)), "the key is in the order list")
        distinct(a, R, l.n, l.arr)
        return g
    def scan(self, a, L):
        g = L.g; i = L.v("i")
        a.fact(And(le(0, i), le(i, g.ix)), "the key has not been passed")
        list_is(a, g.lp, g.l.n, g.l.arr, NOOP)
    def post(self, a, g, ret, b, key):
        l = g.l
        list_is(a, g.lp, simp(sub(l.n, 1)), l.arr.copyin(g.ix, l.arr, simp(add(g.ix, 1)), simp(sub(sub(l.n, 1), g.ix))), NOOP)
        a.map_is("SECT", g.s.fields, g.s.dom)

def drop(a, mp, ix):
    n = mp.n
    return [x.copyin(ix, x, simp(add(ix, 1)), simp(sub(sub(n, 1), ix))) for x in (mp.K, mp.V, mp.T)]

def tree_of(a, m):
    p = find_tree(a, simp(m))
    if p is None: a.ctx.fail("the map's tree is owned here", kind="own")
    return p.args

@register
class MapRemove(MapSpec):
    """the entry goes, its value is returned; key and value are released, not deleted"""
    fn = "cee_map_remove"; props = ("C04", "C07", "C08")
    def pre(self, a, m, key):
        ctx = a.ctx
        if a.branch(eq(key, 0)): return G(z=True)
        mp = map_own(a, m); s = sect(a)
        sv = state_own(a, mp.st); tail = chain_ok(a, sv)
        own_links(a, mp, sv); n = mp.n
        held_ok(a, mp, s)
        return G(z=False, mp=mp, s=s, st=sv, tail=tail, lg=a.log("del"))
    def post(self, a, g, ret, m, key):
        ctx = a.ctx
        if g.z: a.fact(eq(ret, 0), "NULL is no key"); return
        mp = g.mp; R = mp.R; r = R.get(ctx, key); n = mp.n; s = g.s
        if a.produce: ix = self.lookup(a, g, key)
        else: ix = getattr(tree_of(a, m), "last", None)
        sv = state_own(a, mp.st); keep_state(a, g.st, sv)
        a.log_is("del", g.lg, 0, {}, "nothing is deleted but the tuple")
        if ix is None:
            if not a.produce:
                k = ctx.fresh("k")
                a.fact(Implies(And(le(0, k), lt(k, n)), ne(R.get(ctx, mp.K.get(ctx, k)), r)), "no key of the map compares equal")
                a.fact(eq(ret, 0), "NULL when no key compares equal")
            map_is(a, mp, m, n, mp.K, mp.V, mp.ta); a.map_is("SECT", s.fields, s.dom); sv.setf("_.trace_tail", g.tail)
            ctx.ghosts["map_removed"] = None
            return 0 if a.produce else None
        k_, v_ = mp.K.get(ctx, ix), mp.V.get(ctx, ix)
        if not a.produce:
            a.fact(And(le(0, ix), lt(ix, n), eq(R.get(ctx, k_), r)), "the entry removed has an equal key")
            a.fact(eq(ret, v_), "the value removed is returned")
        tp = mp.T.get(ctx, ix); sec = sect0(tp)
        if a.produce: ctx.assume(And(s.dom.get(ctx, sec), ne(k_, tp), ne(v_, tp))); own_link(A_(a), sec, find_or(a, sv))
        cur = FSect(counted(a, s, mp.kp, k_, True), s.dom)
        cur = FSect(counted(a, cur, mp.vp, v_, True), s.dom)
        K2, V2, T2 = drop(a, mp, ix)
        n_, p_ = s["trace_next"].get(ctx, sec), s["trace_prev"].get(ctx, sec)
        unlink_is(a, cur, sv, sec, "the entry's tuple")
        sv.setf("_.trace_tail", If(eq(n_, 0), p_, g.tail), "the chain's tail follows the removal")
        a.fact(sect(a).dom.get(ctx, sv.f("_.trace_tail")), "the chain's tail is a live block")
        map_is(a, mp, m, simp(sub(n, 1)), K2, V2, mp.ta, T2)
        if a.produce:
            find_tree(a, simp(m)).args.last = ix; ctx.ghosts["map_removed"] = ix
            return v_
def find_or(a, sv): return find_state(a) or sv.ch
def held_ok(a, mp, s):
    """keys and values held are live blocks unless their policy is NOOP, retained under DEL"""
    ctx = a.ctx; n = mp.n
    for pol, arr in ((mp.kp, mp.K), (mp.vp, mp.V)):
        a.forall([arr], lambda k, pol=pol, arr=arr: Implies(And(le(0, k), lt(k, n)), value_ok(a, pol, arr.get(ctx, k), s)), "blocks held are live (retained under DEL)")
    a.forall([mp.K], lambda k: Implies(And(le(0, k), lt(k, n), eq(mp.kp, DEL), eq(mp.vp, DEL)), ne(mp.K.get(ctx, k), mp.V.get(ctx, k))), "a block is held once under DEL")

@register
class MapRename(MapSpec):
    """the entry moves to the new key (whose earlier value, if any, is replaced); effects on blocks are those of remove and add"""
    fn = "cee_map_rename"; props = ("C04",)
    def pre(self, a, m, old, new):
        ctx = a.ctx
        if a.branch(Or(eq(old, 0), eq(new, 0))): return G(z=True)
        mp = map_own(a, m); s = sect(a)
        sv = state_own(a, mp.st); tail = chain_ok(a, sv)
        own_links(a, mp, sv); n = mp.n
        held_ok(a, mp, s)
        a.forall([mp.V], lambda k: Implies(And(le(0, k), lt(k, n)), ne(mp.V.get(ctx, k), 0)), "values are not NULL")
        policy_ok(a, mp.kp, new, s)
        T = mp.T
        tup = BBase(ctx, "istuple")        # the map's own tuples are none of the blocks it holds (A2)
        if a.produce:
            ctx.addfact([T], lambda k: Implies(And(le(0, k), lt(k, n)), And(s.dom.get(ctx, sect0(T.get(ctx, k))), tup.get(ctx, T.get(ctx, k)))))
            ctx.assume(Not(tup.get(ctx, new)))
        if a.produce:      # under DEL a block is held once
            IV = Base(ctx, "INVV", 8, False, False); isval = BBase(ctx, "isvalue"); d = eq(mp.vp, DEL)
            ctx.addfact([mp.V], lambda k: Implies(And(d, le(0, k), lt(k, n)), And(eq(IV.get(ctx, mp.V.get(ctx, k)), k), isval.get(ctx, mp.V.get(ctx, k)))))
            ctx.addfact([mp.K], lambda k: Implies(And(d, le(0, k), lt(k, n), eq(mp.kp, DEL)), Not(isval.get(ctx, mp.K.get(ctx, k)))))
        for arr in (mp.V, mp.K):
            if a.produce: ctx.addfact([arr], lambda k, arr=arr: Implies(And(le(0, k), lt(k, n)), Not(tup.get(ctx, arr.get(ctx, k)))))
            a.forall([arr], lambda k, arr=arr: Implies(And(le(0, k), lt(k, n), ne(mp.vp, NOOP)), And(le(s["in_degree"].get(ctx, sect0(arr.get(ctx, k))), 64000))))
        a.fact(Implies(ne(mp.kp, NOOP), le(s["in_degree"].get(ctx, sect0(new)), 64000)), "reference counts can still grow")
        return G(z=False, mp=mp, s=s, st=sv, tail=tail, lg=a.log("del"))
    def post(self, a, g, ret, m, old, new):
        ctx = a.ctx
        if g.z: a.fact(eq(ret, 0), "NULL is no key"); return
        mp = g.mp; R = mp.R; n = mp.n
        sv = state_own(a, mp.st); keep_state(a, g.st, sv)
        if a.produce: raise Annot("cee_map_rename is not used by contract")
        st_ = ctx.ghosts
        ix = st_.get("map_removed")
        if ix is None:
            k = ctx.fresh("k")
            a.fact(Implies(And(le(0, k), lt(k, n)), ne(R.get(ctx, mp.K.get(ctx, k)), R.get(ctx, old))), "no key of the map equals the old one")
            a.fact(eq(ret, 0), "false when the old key is absent"); map_is(a, mp, m, n, mp.K, mp.V, mp.ta); return
        a.fact(And(lt(ix, n), eq(R.get(ctx, mp.K.get(ctx, ix)), R.get(ctx, old)), eq(ret, 1)), "true when the old key was there")
        v = mp.V.get(ctx, ix); K2, V2, T2 = drop(a, mp, ix); n2 = simp(sub(n, 1)); jx = st_.get("map_added")
        if jx is None:
            k = ctx.fresh("k")
            a.fact(Implies(And(le(0, k), lt(k, n2)), ne(R.get(ctx, K2.get(ctx, k)), R.get(ctx, new))), "a new entry only if no other key equals the new one")
            map_is(a, mp, m, n, K2.store(n2, new), V2.store(n2, v), mp.ta, tree_of(a, m).T)
        else:
            a.fact(And(lt(jx, n2), eq(R.get(ctx, K2.get(ctx, jx)), R.get(ctx, new))), "the entry taking the value has the new key")
            map_is(a, mp, m, n2, K2, V2.store(jx, v), mp.ta, T2)

def grown(a, f, dom, k, among):
    """reference counts of blocks in `among` have grown by at most k; nothing else differs from (f, dom)"""
    ctx = a.ctx; old = f["in_degree"]
    rel = lambda new, x: And(le(old.get(ctx, x), new.get(ctx, x)), le(new.get(ctx, x), add(old.get(ctx, x), If(among.get(ctx, x), k, 0))))
    if a.produce:
        b = Base(ctx, "in_degree", 2, False, True); bs = ctx.arr_bases(getattr(old, "under", old))
        ctx.addfact([b] + bs, lambda x: rel(b, x))
        a.map_is("SECT", dict(f, in_degree=b), dom); return
    a.maps_touched.add("SECT")
    cur = a.ex.getmap("SECT").fields["in_degree"]
    x = ctx.fresh("blk")
    a.fact(rel(cur, x), "only counts of the blocks referred to grow")
    a.map_is("SECT", dict(f, in_degree=cur), dom)

class ListOf(MapSpec):
    """a new list holding the n specified elements in the specified order"""
    props = ("C04", "C07")
    def items(self, a, g):
        """(n, array)"""
    def own2(self, a, m): return map_own(a, m)
    def pre(self, a, m):
        ctx = a.ctx
        mp = self.own2(a, m); s = sect(a); sv = state_own(a, mp.st); tail = chain_ok(a, sv)
        g = G(mp=mp, s=s, st=sv, tail=tail, m=m)
        n, arr = self.items(a, g)
        a.fact(lt(n, SZ - 1))
        a.forall([arr], lambda k: Implies(And(le(0, k), lt(k, n)), And(s.dom.get(ctx, sect0(arr.get(ctx, k))), lt(add(s["in_degree"].get(ctx, sect0(arr.get(ctx, k))), n), 65000))), "what is listed are live blocks whose counts can grow")
        return g
    def order(self, a, g):
        """the elements in the order listed"""
        n, arr = self.items(a, g)
        return arr
    def part(self, a, g, lp, k, entry=False):
        """k elements have been listed"""
        ctx = a.ctx
        list_is(a, lp, k, self.order(a, g), RC)
        if entry: g.s1 = Snap(a.ex.getmap("SECT"))
        grown(a, g.s1.fields, g.s1.dom, k, g.s.dom)
    def walk(self, a, w): self.part(a, w.g, w.cxt, w.k, w.entry)
    def same2(self, a, g, m): map_is(a, g.mp, m, g.mp.n, g.mp.K, g.mp.V, g.mp.ta)
    def post(self, a, g, ret, m):
        ctx = a.ctx; n, arr = self.items(a, g); s = g.s
        order = self.order(a, g)
        self.same2(a, g, m)
        sv = state_own(a, g.mp.st); keep_state(a, g.st, sv)
        fr = Fresh(a, g, sv)
        from .list import listblock
        cv = fr.block(ret, LH, "_", 88, resize_method=None, mem_block_size=88, trace=faddr(a, "_cee_list_trace"))
        rm = fr.f["resize_method"].get(ctx, cv.sect); a.fact(And(le(1, rm), le(rm, 2)), "the list can grow")
        cv.setf("size", n, "the list is complete"); cv.setf("del_policy", RC); cap, ap = cv.f("capacity"), cv.f("_.a")
        a.fact(And(le(n, cap), le(cap, 2 * SZ)))
        ac = a.chunk(ap, mul(8, cap), "list storage")
        if a.produce: ac.seg(0, 8, cap, U64, name="slots")
        ac.setseg(0, 8, cap, order, U64, valid=n, label="the list holds exactly the specified elements")
        grown(a, fr.f, fr.dom, n, s.dom)
        sv.setf("_.trace_tail", fr.tail, "the new list is the chain's tail")

@register
class MapKeys(ListOf):
    """every key exactly once (in the order of the tree walk)"""
    fn = "cee_map_keys"
    def items(self, a, g): return g.mp.n, g.mp.K
    def order(self, a, g):
        n, arr = self.items(a, g); ctx = a.ctx
        tp = find_tree(a, simp(g.m)); t = tp.args if tp is not None else g.mp.t
        p = perm(a, t)
        f = Fun(lambda k: arr.get(ctx, p.get(ctx, k)), 8, False); f.under = p
        return f
@register
class MapValues(MapKeys):
    """every value, entry by entry"""
    fn = "cee_map_values"
    def items(self, a, g): return g.mp.n, g.mp.V
@register
class MapOrderedKeys(ListOf):
    """the keys in insertion order"""
    fn = "cee_map_insertion_ordered_keys"
    loops = {("cee_map_insertion_ordered_keys", 0): "copy"}
    def items(self, a, g): return g.mp.n, g.mp.K
    def copy(self, a, L):
        g = L.g; i = L.v("i")
        a.fact(And(le(0, i), le(i, g.mp.n)), "i within the keys")
        L.let(a, "n", g.mp.n) if "n" in L.fr.names else None
        list_is(a, g.mp.list, g.mp.n, g.mp.K, NOOP)
        self.part(a, g, L.v("keys"), i, L.entry)

@register
class MapIterate(MapSpec):
    """the callback gets each entry at most once, in tree order, until it returns non-zero"""
    fn = "cee_map_iterate"; props = ("C04",); nocall = True
    def pre(self, a, m, c, f):
        z = a.branch(eq(m, 0)); log = a.log("call"); R = a.array("R", I32)
        g = G(z=z, log=log, R=R, m=m, c=c, f=f)
        if not z: g.mp = map_own(a, m); a.fact(lt(g.mp.n, SZ - 1)); g.s = sect(a); perm(a, g.mp.t)
        return g
    def fnptr(self, ex, target, vals, rt):
        k = ex.ctx.logs["call"].n if "call" in ex.ctx.logs else 0
        log_append(ex.ctx, "call", fn=target, c=vals[0], k=vals[1], v=vals[2])
        return self.g.R.get(ex.ctx, k)
    def calls(self, a, g, k, ret):
        """after k entries"""
        ctx = a.ctx; mp = g.mp; p = perm(a, mp.t)
        if a.produce:
            cnt = ctx.fresh("cnt", 0, SZ)
        else: cnt = simp(sub(ctx.logs["call"].n, g.log.n)) if "call" in ctx.logs else 0
        a.fact(And(le(0, cnt), le(cnt, k)), "at most one call per entry")
        a.log_is("call", g.log, cnt, dict(fn=lambda i: g.f, c=lambda i: g.c, k=lambda i: mp.K.get(ctx, p.get(ctx, i)), v=lambda i: mp.V.get(ctx, p.get(ctx, i))), "calls are made on the entries, each once")
        a.forall([g.R], lambda i: Implies(And(le(0, i), lt(i, sub(cnt, 1))), eq(g.R.get(ctx, i), 0)), "goes on only after a zero result")
        a.fact(Implies(lt(cnt, k), And(gt(cnt, 0), ne(g.R.get(ctx, sub(cnt, 1)), 0))), "stops only on a non-zero result")
        a.fact(eq(ret, If(eq(cnt, 0), 0, g.R.get(ctx, sub(cnt, 1)))), "the result is the last one, 0 if there was none")
    def walk(self, a, w):
        g = w.g
        cv = a.rec(w.cxt, "_cee_map_fn_ctx", None, "fn_ctx", kind="local")
        cv.setf("ctx", g.c); cv.setf("f", g.f)
        self.calls(a, g, w.k, cv.f("ret"))
    def post(self, a, g, ret, m, c, f):
        if g.z:
            a.fact(eq(ret, 0), "iterating NULL gives 0"); a.log_is("call", g.log, 0, {}); return
        self.calls(a, g, g.mp.n, ret)
        self.same(a, g, m)

@register
class MapTrace(ObjTrace):
    """follow: the tuples are deleted once each (they hold keys and values), with the order list;
    not following: the tree's nodes go; marking: order list and tuples"""
    fn = "_cee_map_trace"; props = ("C04", "C07", "C08", "C09")
    def pre(self, a, v, ta):
        ctx = a.ctx
        a.fact(And(le(0, ta), le(ta, 3)), "a trace action")
        k = "follow" if a.branch(eq(ta, 1)) else "nofollow" if a.branch(eq(ta, 0)) else "mark"
        s = sect(a)
        mp = map_own(a, v, lst=k != "nofollow")
        sec = mp.cv.sect; stp = s["state"].get(ctx, sec)
        sv = state_own(a, stp); chain_ok(a, sv); link_ok(a, sec, sv)
        own_links(a, mp, sv)
        if k == "follow" and a.produce:       # the order list is a list made by the map's constructor (MapMkE)
            ctx.assume(And(eq(s["trace"].get(ctx, mp.l.cv.sect), faddr(a, "_cee_list_trace")), eq(s["state"].get(ctx, mp.l.cv.sect), stp)))
        if k != "nofollow": a.fact(s.dom.get(ctx, mp.l.cv.sect))
        g = G(k=k, mp=mp, sec=sec, stp=stp, s=s, st=sv, ta=ta, v=v, tail=sv.f("_.trace_tail"), log=a.log("del"))
        g.sf = {f: sv.f(f) for f in ("_.roots", "_.next_mark", "_.stack", "_.contexts")}
        ctx.ghosts["sectnow"] = s; ctx.ghosts["tailnow"] = g.tail
        if k == "mark":
            g.marks = marks(a)
        if k != "nofollow":
            if a.produce: n, T = mp.n, mp.T; ctx.addfact([T], lambda i: Implies(And(le(0, i), lt(i, n)), s.dom.get(ctx, sect0(T.get(ctx, i)))))
        g.cv = mp.cv
        return g
    def walk(self, a, w):
        g = w.g; ctx = a.ctx; k = w.k; p = perm(a, w.t); T = w.t.T
        m = a.ex.getmap("SECT"); a.maps_touched.add("SECT")
        if g.k == "nofollow": return
        if g.k == "follow":
            st2 = state_own(a, g.stp)
            for f, x in g.sf.items(): st2.setf(f, x, "state field %s unchanged" % f)
            a.log_is("del", g.log, k, dict(kind=lambda i: DEL, p=lambda i: T.get(ctx, p.get(ctx, i))), "each entry's tuple is deleted once")
            if a.produce:
                havoc_sect(a)
                ctx.assume(m.domarr.get(ctx, g.sec)); own_link(a, g.sec, find_state(a))
                ctx.assume(m.domarr.get(ctx, st2.f("_.trace_tail")))
                ctx.ghosts["sectnow"] = Snap(m); ctx.ghosts["tailnow"] = st2.f("_.trace_tail")
            else:
                a.fact(m.domarr.get(ctx, g.sec), "the map stays alive")
                self.linked(a, g.sec, st2)
            return
        cv = a.chunk(w.cxt, 4, "ta", kind="local"); cv.set(0, U32, g.ta)
        want = sub(g.ta, 2); old = g.s["gc_mark"]
        if a.produce:
            havoc_sect(a, only=["gc_mark"]); new = m.fields["gc_mark"]
            ctx.addfact([new], lambda t: Or(eq(new.get(ctx, t), old.get(ctx, t)), eq(new.get(ctx, t), want)))
            ctx.assume(eq(new.get(ctx, g.sec), want))
            ctx.ghosts["marks"] = ms = BBase(ctx, "marked")
            ctx.addfact([p], lambda j: Implies(And(le(0, j), lt(j, k)), ms.get(ctx, T.get(ctx, p.get(ctx, j)))))
            ctx.assume(ms.get(ctx, g.mp.list))
        else:
            new = m.fields["gc_mark"]; x = ctx.fresh("blk")
            a.fact(Or(eq(new.get(ctx, x), old.get(ctx, x)), eq(new.get(ctx, x), want)), "marking sets only the current mark")
            a.fact(eq(new.get(ctx, g.sec), want), "the map carries the current mark")
            a.map_is("SECT", {f: g.s[f] for f in SECTF if f != "gc_mark"}, g.s.dom, "marking changes nothing else in any header")
            ms = marks(a); j = ctx.fresh("k")
            a.fact(Implies(And(le(0, j), lt(j, k)), ms.get(ctx, T.get(ctx, p.get(ctx, j)))), "the mark reached the entries walked over")
            a.fact(ms.get(ctx, g.mp.list), "the mark reached the order list")
    def post(self, a, g, ret, v, ta):
        ctx = a.ctx; mp = g.mp
        if g.k == "mark":
            perm(a, mp.t)
            map_is(a, mp, v, mp.n, mp.K, mp.V, ta)
            st2 = state_own(a, g.stp)
            for f, x in g.sf.items(): st2.setf(f, x, "state field %s unchanged" % f)
            m = a.ex.getmap("SECT"); want = sub(ta, 2); x = ctx.fresh("blk")
            a.fact(eq(m.fields["gc_mark"].get(ctx, g.sec), want), "the map carries the current mark")
            a.fact(Or(eq(m.fields["gc_mark"].get(ctx, x), g.s["gc_mark"].get(ctx, x)), eq(m.fields["gc_mark"].get(ctx, x), want)), "marking sets only the current mark")
            a.map_is("SECT", {f: g.s[f] for f in SECTF if f != "gc_mark"}, g.s.dom, "marking changes nothing else in any header")
            ms = marks(a); i = ctx.fresh("i"); mp.t.pinv.get(ctx, i); mp.t.perm.get(ctx, mp.t.pinv.get(ctx, i))
            a.fact(Implies(And(le(0, i), lt(i, mp.n)), ms.get(ctx, mp.T.get(ctx, i))), "the mark reaches every entry")
            a.fact(ms.get(ctx, mp.list), "the mark reaches the order list")
            return
        cur = now(a); n = mp.n
        if g.k == "follow":
            p = perm(a, mp.t)
            a.log_is("del", g.log, n, dict(kind=lambda i: DEL, p=lambda i: mp.T.get(ctx, p.get(ctx, i))), "each entry's tuple is deleted exactly once")
        else: a.log_is("del", g.log, 0, {}, "nothing else is deleted")
        st2 = state_own(a, g.stp)
        for f, x in g.sf.items(): st2.setf(f, x, "state field %s unchanged" % f)
        n_, p_ = cur["trace_next"].get(ctx, g.sec), cur["trace_prev"].get(ctx, g.sec)
        unlink_is(a, cur, st2, g.sec)
        st2.setf("_.trace_tail", If(eq(n_, 0), p_, ctx.ghosts["tailnow"]), "the chain's tail follows the deletion")
