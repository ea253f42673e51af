"""musl-tsearch.c as its callers (map, set) see it: a finite set of items without equal ones, kept behind a root pointer.
The functions themselves are verified in avl.py; these are the views of their callers.
The items are T[0..n) in an order of no meaning; comparison results come from a rank (a total preorder)."""
from .base import *

TN = "_cee_tsearch_tnode"

def rank(a, cmp):
    """RANK[key]: the position of a key in the total preorder given by the comparison function cmp"""
    tab = a.ctx.__dict__.setdefault("_rank", [])
    for c, r in tab:
        if c is cmp or a.ctx.same(c, cmp): return r
    r = Base(a.ctx, "RANK", 8, True, False); tab.append((cmp, r)); return r
def rank_text(a, x, y):
    """strcmp compares texts: equal texts have equal ranks"""

def sign_is(r, x, y): return And(Iff(lt(r, 0), lt(x, y)), Iff(eq(r, 0), eq(x, y)))
def cmp_call(a_or_ex, cmp, x, y):
    """result of calling the comparison function on two keys"""
    from cvf.dsl import A
    ex = getattr(a_or_ex, "ex", a_or_ex)
    a = A(ex, True); R = rank(a, cmp); ctx = ex.ctx
    r = ctx.fresh("cmp", -(1 << 31), (1 << 31) - 1)
    ctx.assume(sign_is(r, R.get(ctx, x), R.get(ctx, y)))
    return r

def mktree(a, rootp, root, n, T, rk, cmp, cxt, **kw):
    """produce: the tree at *rootp with items T[0..n)"""
    ctx = a.ctx
    t = G(root=root, n=n, T=T, rk=rk, cmp=cmp, cxt=cxt, seen=[], opened=[], perm=None, **kw)
    ctx.assume(Iff(eq(root, 0), eq(n, 0))); ctx.assume(ge(n, 0))
    a.pred("tree", rootp, t)
    return t
def perm(a, t):
    """the order in which a walk delivers the items: a permutation of 0..n-1"""
    ctx = a.ctx
    if t.perm is None:
        t.perm = Base(ctx, "PERM", 8, False, False); t.pinv = Base(ctx, "PINV", 8, False, False); n = t.n
        ctx.addfact([t.perm], lambda k: Implies(And(le(0, k), lt(k, n)), And(le(0, t.perm.get(ctx, k)), lt(t.perm.get(ctx, k), n), eq(t.pinv.get(ctx, t.perm.get(ctx, k)), k))))
        ctx.addfact([t.pinv], lambda i: Implies(And(le(0, i), lt(i, n)), And(le(0, t.pinv.get(ctx, i)), lt(t.pinv.get(ctx, i), n), eq(t.perm.get(ctx, t.pinv.get(ctx, i)), i))))
    return t.perm
def find_tree(a, rootp=None, root=None):
    ctx = a.ctx
    for p in ctx.heap:
        if isinstance(p, Pred) and p.name == "tree":
            if rootp is not None and (p.key is rootp or ctx.same(p.key, rootp)): return p
            if root is not None and (p.args.root is root or ctx.same(p.args.root, root)): return p
    return None

def lend(a, t, ix):
    """the node holding item ix, read only"""
    ctx = a.ctx
    item = t.T.get(ctx, ix)
    for i, it, node in t.seen:
        if i is ix or ctx.same(i, ix): return node
    node = ctx.fresh("node", 4096, 1 << 47)
    c = Chunk(node, 32, "lent", False, "tree node", init=True); c.ro = True; c.shared = True
    ctx.addchunk(c); c.cells[0] = (8, False, item)
    t.seen.append((ix, item, node)); t.__dict__.setdefault("nodes", []).append(c)
    return node
def unlend(a, t):
    """nodes may have moved"""
    for c in t.__dict__.get("nodes", []):
        if c in a.ctx.heap: a.ctx.heap.remove(c)
    t.nodes = []

COMPARERS = {}
class TreeOp(Contract):
    props = ("C03",); trusted = True; by = "avl.py (same functions, verified; here without the order)"
    def pre(self, a, cxt, key, rootp, cmp):
        if a.produce: return G()
        p = find_tree(a, rootp)
        if p is None: a.ctx.fail("there is a tree at the root pointer", kind="own")
        t = p.args; g = G(p=p, t=t)
        a.fact(And(eq(cmp, t.cmp), eq(cxt, t.cxt)), "the comparison is the one the tree is ordered by")
        nm = a.ex.fname(cmp)
        if nm not in COMPARERS: raise Annot("comparison function %s has no contract" % nm)
        g.r = COMPARERS[nm].rankof(a, cxt, key)
        return g
    def lookup(self, a, g):
        ctx = a.ctx; t = g.t
        for i, it, nd in t.seen:
            if ctx.valid(And(lt(i, t.n), eq(t.rk(i), g.r))): return i
        b = ctx.fresh("found", 0, 1)
        if a.branch(eq(b, 1)):
            ix = ctx.fresh("ix", 0, SZ); ctx.assume(lt(ix, t.n)); ctx.assume(eq(t.rk(ix), g.r))
            return ix
        n, r, rk = t.n, g.r, t.rk
        arrs = t.deps
        bs = []
        for x in arrs: bs += ctx.arr_bases(getattr(x, "under", x))
        ctx.addfact(bs, lambda k: Implies(And(le(0, k), lt(k, n)), ne(rk(k), r)))
        return None
    def setroot(self, a, g, rootp, n):
        if g.p.ro: a.ctx.fail("the tree is outside the frame here", kind="frame")
        v = a.ctx.fresh("root", 0, 1 << 47); a.ctx.assume(Iff(eq(v, 0), eq(n, 0)))
        a.ex.store(rootp, P, v); g.t.root = v

@register
class TFindC(TreeOp):
    fn = "musl_tfind"
    def post(self, a, g, ret, cxt, key, rootp, cmp):
        ix = self.lookup(a, g)
        if ix is None: return 0
        g.t.last = ix
        return lend(a, g.t, ix)

@register
class TSearchC(TreeOp):
    fn = "musl_tsearch"
    def post(self, a, g, ret, cxt, key, rootp, cmp):
        ctx = a.ctx
        ix = self.lookup(a, g); t = g.t
        if ix is not None:
            t.last = ix; return lend(a, t, ix)
        n = t.n
        unlend(a, t)
        t.T = t.T.store(n, key); t.n = simp(add(n, 1)); t.perm = None
        t.added(a, t, key, n)
        self.setroot(a, g, rootp, t.n)
        return lend(a, t, n)

@register
class TDeleteC(TreeOp):
    fn = "musl_tdelete"
    def post(self, a, g, ret, cxt, key, rootp, cmp):
        ctx = a.ctx
        ix = self.lookup(a, g); t = g.t
        if ix is None: return 0
        unlend(a, t)
        # items differ in rank, so this is the one found before, if one was
        for i, it, node in t.seen:
            if i is not ix and ctx.same(i, ix): ix = i
        item = t.T.get(ctx, ix); n = t.n
        ctx.ghosts["removed_ix"] = ix
        t.removed(a, t, item, ix)
        t.T = t.T.copyin(ix, t.T, simp(add(ix, 1)), simp(sub(sub(n, 1), ix))); t.n = simp(sub(n, 1)); t.perm = None
        t.seen = [(i, it, nd) for i, it, nd in t.seen if i is not ix]
        self.setroot(a, g, rootp, t.n)
        return None      # some pointer: the parent, NULL for the root

class LW:
    """state of a walk seen by its invariant"""
    def __init__(self, ex, k, cxt, t, entry=False): self.ex, self.k, self.cxt, self.t, self.g, self.entry = ex, k, cxt, t, ex.spec.g, entry

def ghostloop(ex, lab, inv, t, cxt, body):
    """for each item in walk order: body(k), under the caller's invariant"""
    from cvf.dsl import A
    ctx = ex.ctx; w0 = ctx.where; n = t.n
    ctx.where = (w0 + " > " if w0 else "") + lab + " invariant on entry"
    a = A(ex, False); inv(a, LW(ex, 0, cxt, t, True)); a.finish()
    ctx.where = w0
    frozen = []
    for c in ctx.heap:
        if not c.ro: c.ro = True; frozen.append(c)
    lro = set(ctx.logs) - ctx.logro - a.logs_touched
    ctx.logro |= lro
    touched = a.maps_touched
    k = ctx.fresh("k", 0, SZ); ctx.assume(le(k, n))
    a = A(ex, True); a.loop = True
    for c in ctx.heap:
        if isinstance(c, MapChunk) and c.name in touched and c in frozen: c.ro = False
    inv(a, LW(ex, k, cxt, t))
    def thaw():
        for c in frozen: c.ro = False
        for x in lro: ctx.logro.discard(x)
    if not ctx.branch(lt(k, n)):
        ctx.assume(eq(k, n)); thaw(); return
    nk = body(k)
    ctx.where = (w0 + " > " if w0 else "") + lab + " invariant kept"
    a = A(ex, False); inv(a, LW(ex, nk, cxt, t)); a.finish()
    left = [c for c in ctx.heap if isinstance(c, Chunk) and not c.ro and c.kind == "heap"]
    if left: ctx.fail("memory acquired in a walk is not covered (%s)" % left[0].name, kind="leak")
    ctx.where = w0
    raise PathEnd()

def walkinv(a):
    m = getattr(a.ex.spec, "walk", None)
    if m is None: raise Annot("a tree walk without an invariant")
    return m

@register
class TWalkC(Contract):
    """calls action(cxt, node, which, depth): per item either once as leaf, or as preorder, postorder and endorder"""
    fn = "musl_twalk"; props = ("C03",); trusted = True; by = TreeOp.by
    def pre(self, a, cxt, root, action):
        if a.produce: return G()
        if a.branch(eq(root, 0)):
            p = find_tree(a, root=root)
            t = p.args if p is not None else G(n=0, T=None)
            if p is not None: a.ctx.assume(eq(t.n, 0))
        else:
            p = find_tree(a, root=root)
            if p is None: a.ctx.fail("the tree walked is owned here", kind="own")
            t = p.args
        ctx = a.ctx; ex = a.ex
        if cval(simp(t.n)) == 0 or ctx.valid(eq(t.n, 0)): t = G(**t.__dict__); t.n = 0
        if t.T is not None: perm(a, t)
        def body(k):
            w = ctx.fresh("which", 0, 3); d = ctx.fresh("depth", 0, 1 << 20)
            ix = t.perm.get(ctx, k)
            ctx.assume(And(le(0, ix), lt(ix, t.n)))
            node = lend(a, t, ix)
            c = ctx.choose([Or(eq(w, 0), eq(w, 3)), Or(eq(w, 1), eq(w, 2))])
            ex.callptr(action, [cxt, node, w, d], ("void",), None)
            if getattr(t, "visited", None): t.visited(a, t)
            return simp(add(k, 1)) if c == 0 else k
        ghostloop(ex, "walk", walkinv(a), t, cxt, body)
        unlend(a, t)
        return G()

@register
class TDestroyC(Contract):
    """hands every item to the free function (if there is one) exactly once and frees the nodes"""
    fn = "musl_tdestroy"; props = ("C03",); trusted = True; by = TreeOp.by
    def pre(self, a, cxt, root, freekey):
        if a.produce: return G()
        p = find_tree(a, root=root)
        if p is None:
            a.fact(eq(root, 0), "the tree destroyed is owned here"); return G()
        if p.ro: a.ctx.fail("the tree is outside the frame here", kind="frame")
        t = p.args; ctx = a.ctx; ex = a.ex
        unlend(a, t)
        p.args.gone = True; ctx.heap.remove(p); perm(a, t)
        if a.branch(eq(freekey, 0)): return G()
        def body(k):
            ix = t.perm.get(ctx, k)
            ctx.assume(And(le(0, ix), lt(ix, t.n)))
            ex.callptr(freekey, [cxt, t.T.get(ctx, ix)], ("void",), None)
            return simp(add(k, 1))
        ghostloop(ex, "destroy", walkinv(a), t, cxt, body)
        return G()
