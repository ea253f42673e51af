"""musl-tsearch.c (C03): the AVL tree itself.

avl(p; S, NS, lo, n, h): p is the root of an AVL tree of height h whose in-order sequence is the items S[lo..lo+n) in the nodes
NS[lo..lo+n) (p = 0 for n = 0).  path(b, k): the nodes of a root-to-hole path (the cells are AR[b-1+off .. k-1+off]) with their
other subtrees; O is the interval and the height of the whole, I those of the tree that belongs into the hole.
Both are unfolded by the access that needs them; folding back proves that the in-order concatenation of the pieces is the
sequence wanted, that the recorded heights are right and that the balance is kept.  Minimal AVL sizes (MINN, proved in lemmas/avl_size.v) give height <= 44.
Here the contracts of the code; tree.py has the views of callers (map, set), to whom the order in the tree means nothing."""
from .base import *
from .tree import TN, rank, sign_is

MAXN = 1 << 31
MAXH = 44
_m = [0, 1]
while len(_m) <= MAXH + 1: _m.append(_m[-1] + _m[-2] + 1)
assert _m[MAXH] < MAXN <= _m[MAXH + 1]          # a tree of fewer than 2^31 items has height at most 44
NODE = 32; KEY, LEFT, RIGHT, HGT = 0, 8, 16, 24

def minn(a, h):
    """MINN(h): the least number of items of an AVL tree of height h"""
    f = lambda x: z3.Function("MINN", z3.IntSort(), z3.IntSort())(T(x))
    r = f(h); r1, r2 = f(simp(sub(h, 1))), f(simp(sub(h, 2)))
    a.ctx.keep += [r, r1, r2]
    a.ctx.assume(And(Implies(le(h, 0), eq(r, 0)), Implies(eq(h, 1), eq(r, 1)), Implies(ge(h, 2), And(eq(r, add(add(r1, r2), 1)), le(r2, r1))), ge(r1, 0), ge(r2, 0)))
    a.ctx.assume(And(le(r1, r), Implies(gt(h, MAXH), ge(r, MAXN))))
    return r

class Seq:
    """an item sequence with its nodes; at(m): what sortedness says about item m"""
    def __init__(self, S, NS, at=None): self.S, self.NS, self._at, self.done = S, NS, at, []
    def at(self, m):
        if self._at is None or any(x is m for x in self.done): return
        self.done.append(m); self._at(m)
    def item(self, ctx, i): return self.S.get(ctx, simp(i))
    def node(self, ctx, i): return self.NS.get(ctx, simp(i))
def anyseq(a, n, R=None):
    ctx = a.ctx; S, NS = Base(ctx, "S", 8, False), Base(ctx, "NS", 8, False)
    def at(m):
        rm = R.get(ctx, S.get(ctx, m))
        ctx.addfact([S], lambda j: Implies(And(le(0, m), lt(m, n), le(0, j), lt(j, n)), And(Implies(lt(j, m), lt(R.get(ctx, S.get(ctx, j)), rm)), Implies(lt(m, j), lt(rm, R.get(ctx, S.get(ctx, j)))))))
    return Seq(S, NS, at if R is not None else None)

def avlfacts(a, p, t):
    m = minn(a, t.h)
    a.ctx.assume(And(ge(t.n, 0), lt(t.n, MAXN), ge(t.h, 0), le(t.h, MAXH), Iff(eq(p, 0), eq(t.n, 0)), Iff(eq(t.n, 0), eq(t.h, 0)), ge(t.n, m), Or(eq(p, 0), ge(p, 4096)), le(p, 1 << 47)))
def mkavl(a, p, seq, lo, n, h, lent=False):
    t = G(seq=seq, lo=simp(lo), n=simp(n), h=h, lent=lent)
    q = Pred("avl", p, t); a.ctx.heap.append(q); avlfacts(a, p, t)
    if lent: q.ro = True
    return q
def newavl(a, p, seq, lo, n, lent=False):
    return mkavl(a, p, seq, lo, n, a.ctx.fresh("h", 0, MAXH), lent)
def preds(ctx, name): return [p for p in ctx.heap if isinstance(p, Pred) and p.name == name]
def find_avl(ctx, p):
    for q in preds(ctx, "avl"):
        if q.key is p or (not isc(p) and not isc(q.key) and q.key.eq(p)): return q
    for q in preds(ctx, "avl"):
        if ctx.same(q.key, p): return q
    return None
def sweep(a):
    """null subtrees own nothing"""
    for q in preds(a.ctx, "avl"):
        if not q.ro and a.ctx.valid(eq(q.key, 0)): a.ctx.heap.remove(q)

def nodechunk(a, x, key, c0, c1, h, info, lent=False):
    c = Chunk(x, NODE, "lent" if lent else "heap", not lent, "tree node", init=True)
    if lent: c.ro = c.shared = True
    c.cells = {KEY: (8, False, key), LEFT: (8, False, c0), RIGHT: (8, False, c1), HGT: (4, True, h)}
    a.ctx.addchunk(c); c.avl = info; a.ctx.ghosts["nodes"] = a.ctx.ghosts.get("nodes", []) + [(x, info)]
    info.seq.at(info.m)
    return c
def info_of(a, x):
    for p, i in reversed(a.ctx.ghosts.get("nodes", [])):
        if p is x or (not isc(p) and not isc(x) and p.eq(x)): return i
    for p, i in reversed(a.ctx.ghosts.get("nodes", [])):
        if a.ctx.same(p, x): return i
    a.ctx.fail("the node is one met on the way", kind="own")
def unfold(a, q):
    ctx = a.ctx; t = q.args; x = q.key
    if not q.ro or t.lent: ctx.heap.remove(q)
    else: return False
    m = ctx.fresh("m", 0, MAXN); h0, h1 = ctx.fresh("h0", 0, MAXH), ctx.fresh("h1", 0, MAXH)
    ctx.assume(And(le(t.lo, m), lt(m, add(t.lo, t.n)), eq(t.seq.node(ctx, m), x), le(sub(h0, h1), 1), le(sub(h1, h0), 1), eq(t.h, add(1, If(ge(h0, h1), h0, h1)))))
    c0, c1 = ctx.fresh("left", 0, 1 << 47), ctx.fresh("right", 0, 1 << 47)
    mkavl(a, c0, t.seq, t.lo, sub(m, t.lo), h0, t.lent); mkavl(a, c1, t.seq, add(m, 1), sub(sub(add(t.lo, t.n), m), 1), h1, t.lent)
    nodechunk(a, x, t.seq.item(ctx, m), c0, c1, t.h, G(seq=t.seq, m=m, lo=t.lo, n=t.n, h=t.h), t.lent)
    return True

# ---- paths
def mkpath(a, seq, b, k, AR, off, O, I, root=None, base=None):
    """produce: root: address of the root pointer (owned by the path); base: the cell (not owned) where a partial path starts"""
    ctx = a.ctx; cell = AR.get(ctx, simp(add(sub(k, 1), off)))
    s = G(seq=seq, b=b, k=k, AR=AR, off=off, O=O, I=I, root=root, base=base, cell=cell)
    ctx.assume(And(le(b, k), le(O.lo, I.lo), ge(I.n, 0), le(add(I.lo, I.n), add(O.lo, O.n)), ge(I.h, 0), le(I.h, MAXH), le(add(I.h, sub(k, b)), O.h), le(O.h, MAXH), lt(O.n, MAXN), ge(O.lo, 0)))
    ctx.assume(Implies(eq(k, b), And(eq(I.lo, O.lo), eq(I.n, O.n), eq(I.h, O.h))))
    first = AR.get(ctx, simp(add(sub(b, 1), off)))
    ctx.assume(eq(first, root if base is None else base))
    if O.v is not None: ctx.assume(Implies(eq(k, b), eq(I.v, O.v)))
    # the node the hole's cell is in (if it is not the first cell): not the node in the hole
    s.above = ctx.fresh("above", 4096, 1 << 47); ctx.assume(Implies(lt(b, k), And(ne(s.above, I.v), Or(eq(cell, add(s.above, LEFT)), eq(cell, add(s.above, RIGHT))))))
    ctx.heap.append(Pred("path", cell, s)); return s
def unfold_path(a, q):
    ctx = a.ctx; s = q.args
    if q.ro: return False
    ctx.heap.remove(q)
    if a.branch(eq(s.k, s.b)):
        if s.base is None:
            c = Chunk(s.root, 8, "caller", False, "root pointer", init=True); c.cells[0] = (8, False, s.I.v); ctx.addchunk(c)
        return True
    d = ctx.choose([eq(ctx.fresh("side", 0, 1), 0), True]) if False else (0 if a.branch(eq(ctx.fresh("side", 0, 1), 0)) else 1)
    I = s.I; x = s.above; ctx.assume(eq(s.cell, add(x, LEFT + 8 * d)))
    m = ctx.fresh("m", 0, MAXN); hs = ctx.fresh("hs", 0, MAXH); xh = ctx.fresh("hx", 1, MAXH)
    ctx.assume(And(le(sub(I.h, hs), 1), le(sub(hs, I.h), 1), eq(xh, add(1, If(ge(I.h, hs), I.h, hs))), eq(s.seq.node(ctx, m), x)))
    sib = ctx.fresh("other", 0, 1 << 47)
    if d == 0:
        ctx.assume(eq(m, add(I.lo, I.n))); ns = ctx.fresh("ns", 0, MAXN)
        q1 = mkavl(a, sib, s.seq, add(m, 1), ns, hs); J = G(lo=I.lo, n=simp(add(add(I.n, 1), ns)), h=xh, v=x)
    else:
        ctx.assume(eq(add(m, 1), I.lo)); lo = ctx.fresh("lo", 0, MAXN); ctx.assume(le(lo, m))
        q1 = mkavl(a, sib, s.seq, lo, sub(m, lo), hs); J = G(lo=lo, n=simp(sub(add(I.lo, I.n), lo)), h=xh, v=x)
    c = [I.v, sib] if d == 0 else [sib, I.v]
    mkpath(a, s.seq, s.b, simp(sub(s.k, 1)), s.AR, s.off, s.O, J, s.root, s.base)
    nodechunk(a, x, s.seq.item(ctx, m), c[0], c[1], xh, G(seq=s.seq, m=m, lo=J.lo, n=J.n, h=xh))
    return True

def hook(ex, addr, hint):
    """unfold what the access needs"""
    from cvf.dsl import A
    a = A(ex, True); ctx = ex.ctx
    for q in preds(ctx, "avl"):
        d = cval(simp(sub(addr, q.key))) if not isc(q.key) else None
        if d is not None and 0 <= d < NODE:
            if not ctx.valid(ne(q.key, 0)): return False
            return unfold(a, q)
    for q in preds(ctx, "path"):
        if ctx.same(q.key, addr): return unfold_path(a, q)
    for q in preds(ctx, "path"):
        s = q.args
        if s.base is None and ctx.same(s.AR.get(ctx, simp(add(sub(s.k, 2), s.off))), addr): return unfold_path(a, q)
    for q in preds(ctx, "avl"):
        if ctx.same(q.key, addr) and ctx.valid(ne(q.key, 0)): return unfold(a, q)
    return False

# ---- folding
def collapse(a, p):
    """take the tree at p apart into pieces: [(length, item of j, node of j)], size, height"""
    ctx = a.ctx; p = simp(p)
    q = find_avl(ctx, p) if not (isc(p) and p == 0) else None
    if q is not None:
        t = q.args
        if q.ro: ctx.fail("the tree is outside the frame here", kind="frame")
        ctx.heap.remove(q)
        return [(t.n, lambda j: t.seq.item(ctx, add(t.lo, j)), lambda j: t.seq.node(ctx, add(t.lo, j)))], t.n, t.h
    if ctx.valid(eq(p, 0)): return [], 0, 0
    c = nodeat(a, p)
    x, key, k0, k1, h = c.base, *(c.cells[o][2] for o in (KEY, LEFT, RIGHT, HGT))
    take_node(a, c)
    L, nl, hl = collapse(a, k0); R, nr, hr = collapse(a, k1)
    node_ok(a, hl, hr, h)
    return L + [(1, lambda j: key, lambda j: x)] + R, simp(add(add(nl, 1), nr)), h
def nodeat(a, p):
    ctx = a.ctx; r = ctx.find(simp(p)) or ctx.find_sem(p)
    if r is None or cval(simp(r[1])) != 0 or not all(o in r[0].cells for o in (KEY, LEFT, RIGHT, HGT)): ctx.fail("there is a tree here", kind="own")
    return r[0]
def take_node(a, c):
    if c.ro: a.ctx.fail("the node is outside the frame here", kind="frame")
    a.ctx.prove(eq(c.size, NODE), "a tree node"); a.ctx.heap.remove(c)
def node_ok(a, hl, hr, h):
    a.ctx.prove(And(le(sub(hl, hr), 1), le(sub(hr, hl), 1)), "the subtrees' heights differ by at most one")
    a.ctx.prove(eq(h, add(1, If(ge(hl, hr), hl, hr))), "the height recorded in a node is that of its tree")
    minn(a, h); minn(a, simp(sub(h, 1))); minn(a, hl); minn(a, hr)
def fits(a, pieces, seq, lo, n, what):
    """the pieces one after the other are seq[lo..lo+n)"""
    ctx = a.ctx; off = lo
    for ln, it, nd in pieces:
        if isc(ln) and ln == 0: continue
        o = off; j = 0 if isc(ln) and ln == 1 else ctx.fresh("j", 0, MAXN)
        ctx.prove(Implies(lt(j, ln), And(eq(it(j), seq.item(ctx, add(o, j))), eq(nd(j), seq.node(ctx, add(o, j))))), "%s: items in order" % what)
        off = simp(add(off, ln))
    ctx.prove(eq(off, add(lo, n)), "%s: no item lost or doubled" % what)

def climb(a, cell, h, k, AR, off, stop=None):
    """take the path whose hole is the given cell (level k), for a tree of height h in it; pieces left and right of the hole"""
    ctx = a.ctx; L, R = [], []; lvl = k; up = 0
    for _ in range(12):
        ctx.prove(eq(AR.get(ctx, simp(add(sub(lvl, 1), off))), cell), "the path array holds the cells of the path", kind="own")
        if stop is not None and ctx.same(cell, stop): return L, R, h, lvl, up
        q = next((q for q in preds(ctx, "path") if q.key is cell or ctx.same(q.key, cell)), None)
        if q is not None:
            s = q.args
            if q.ro: ctx.fail("the path is outside the frame here", kind="frame")
            ctx.heap.remove(q)
            ctx.prove(eq(s.k, lvl), "the level of the path", kind="own"); ctx.prove(eq(h, s.I.h), "the hole keeps its height")
            if s.AR is not AR:
                j = ctx.fresh("j", 0, 200)
                ctx.prove(Implies(And(le(sub(s.b, 1), j), lt(j, s.k)), eq(AR.get(ctx, simp(add(j, off))), s.AR.get(ctx, simp(add(j, s.off))))), "the path array holds the cells of the path", kind="own")
            O, I, sq = s.O, s.I, s.seq; e = simp(add(I.lo, I.n))
            L = [(simp(sub(I.lo, O.lo)), (lambda j, O=O, sq=sq: sq.item(ctx, add(O.lo, j))), (lambda j, O=O, sq=sq: sq.node(ctx, add(O.lo, j))))] + L
            R = R + [(simp(sub(add(O.lo, O.n), e)), (lambda j, e=e, sq=sq: sq.item(ctx, add(e, j))), (lambda j, e=e, sq=sq: sq.node(ctx, add(e, j))))]
            h = O.h; lvl = s.b; up = simp(add(up, sub(s.k, s.b)))
            if s.base is None: return L, R, h, lvl, up
            cell = s.base
            if stop is not None and ctx.same(cell, stop): return L, R, h, lvl, up
        r = ctx.find(simp(cell)) or ctx.find_sem(cell)
        if r is None: ctx.fail("the cell belongs to the path", kind="own")
        c, d = r; d = cval(simp(d))
        if c.ro: ctx.fail("the path is outside the frame here", kind="frame")
        if cval(c.size) == 8:
            ctx.heap.remove(c); return L, R, h, lvl, up
        if d not in (LEFT, RIGHT) or HGT not in c.cells: ctx.fail("the cell belongs to the path", kind="own")
        take_node(a, c); x, key, xh = c.base, c.cells[KEY][2], c.cells[HGT][2]
        sp, ns, hs = collapse(a, c.cells[LEFT + RIGHT - d][2])
        me = [(1, (lambda j, key=key: key), (lambda j, x=x: x))]
        if d == LEFT: node_ok(a, h, hs, xh); R = R + me + sp
        else: node_ok(a, hs, h, xh); L = sp + me + L
        h = xh; lvl = simp(sub(lvl, 1)); up = simp(add(up, 1)); cell = None
        for q in preds(ctx, "path"):
            if q.args.I.v is x or ctx.same(q.args.I.v, x): cell = q.args.cell; break
        if cell is None:
            for c in ctx.heap:
                if not isinstance(c, Chunk): continue
                for o in ((0,) if cval(c.size) == 8 else (LEFT, RIGHT)):
                    if o in c.cells and (c.cells[o][2] is x or ctx.same(c.cells[o][2], x)): cell = simp(add(c.base, o))
        if cell is None: ctx.fail("the node hangs in the path", kind="own")
    ctx.fail("the path ends", kind="own")
def keep_path(a, seq, b, k, AR, off, O, I, cell, stop=None, what="the path"):
    """consume: the path from level b to the hole 'cell' at level k"""
    ctx = a.ctx
    L, R, h, lvl, up = climb(a, cell, I.h, k, AR, off, stop)
    ctx.prove(eq(lvl, b), "%s starts at its first cell" % what, kind="own")
    ctx.prove(eq(h, O.h), "%s: the height of the whole stays" % what)
    fits(a, L, seq, O.lo, sub(I.lo, O.lo), what + ", left part"); fits(a, R, seq, add(I.lo, I.n), sub(add(O.lo, O.n), add(I.lo, I.n)), what + ", right part")
    ctx.prove(le(add(I.h, sub(k, b)), O.h), "%s is no longer than the height allows" % what)
def whole(a, rootp, seq, n, what):
    """consume: the tree at the root pointer, with everything unfolded; it is seq[0..n)"""
    ctx = a.ctx; ps = preds(ctx, "path")
    if ps and a.branch(eq(ps[0].args.k, ps[0].args.b)): unfold_path(a, ps[0]); ps = []
    if ps:
        s = ps[0].args
        mid, k, h = collapse(a, s.I.v)
        L, R, h, lvl, up = climb(a, s.cell, h, s.k, s.AR, s.off)
        fits(a, L + mid + R, seq, 0, n, what)
    else:
        c = a.chunk(rootp, 8, "root pointer"); v = c.get(0, P)
        mid, k, h = collapse(a, v); fits(a, mid, seq, 0, n, what)
    sweep(a)

class AvlSpec(Contract):
    props = ("C03",); nocall = True; decide = True; boundable = False
    def setup(self, ex): ex.auto.append(hook)
    def cmpr(self, a, x): return self.R.get(a.ctx, x)

def bal(h0, h1): return And(le(sub(h0, h1), 1), le(sub(h1, h0), 1))
def mx(x, y): return If(ge(x, y), x, y)
class Reb(AvlSpec):
    """a node whose subtrees' heights may be off by two, in the cell p"""
    nocall = False
    def node(self, a, p, x=None):
        """pre: the node at *p with its subtrees; what they hold together"""
        ctx = a.ctx; g = G(p=p)
        if a.verify:
            g.n0, g.n1, g.lo = (ctx.fresh(s, 0, MAXN) for s in ("n0", "n1", "lo"))
            g.n = simp(add(add(g.n0, g.n1), 1)); ctx.assume(lt(g.n, MAXN)); ctx.ghosts["seq"] = g.seq = anyseq(a, g.n)
            if x is None: x = ctx.fresh("x", 4096, 1 << 47)
            else: ctx.assume(ge(x, 4096))
            cell = a.chunk(p, 8, "cell"); cell.set(0, P, x)
            c0, c1 = ctx.fresh("left", 0, 1 << 47), ctx.fresh("right", 0, 1 << 47)
            q0, q1 = newavl(a, c0, g.seq, g.lo, g.n0), newavl(a, c1, g.seq, add(add(g.lo, g.n0), 1), g.n1)
            m = simp(add(g.lo, g.n0)); g.old = ctx.fresh("old", 1, MAXH + 2); ctx.assume(eq(g.seq.node(ctx, m), x))
            nodechunk(a, x, g.seq.item(ctx, m), c0, c1, g.old, G(seq=g.seq, m=m, lo=g.lo, n=g.n, h=g.old))
            g.h0, g.h1 = q0.args.h, q1.args.h
        else:
            ctx.ghosts["nopeek"] = True
            x = a.ex.load(p, P) if x is None else x
            a.ex.load(simp(add(x, KEY)), P)
            c = nodeat(a, x); k0, k1 = c.cells[LEFT][2], c.cells[RIGHT][2]; g.old = c.cells[HGT][2]
            L, g.n0, g.h0 = collapse(a, k0); R, g.n1, g.h1 = collapse(a, k1)
            take_node(a, c); g.lo = c.avl.lo; g.seq = ctx.ghosts["seq"]; g.n = simp(add(add(g.n0, 1), g.n1))
            key = c.cells[KEY][2]
            fits(a, L + [(1, lambda j: key, lambda j: x)] + R, g.seq, g.lo, g.n, "the tree to be balanced")
            a.fact(And(ge(g.old, 0), le(g.old, MAXH + 2)), "a height")
        minn(a, g.h0); minn(a, g.h1)
        a.fact(And(le(sub(g.h0, g.h1), 2), le(sub(g.h1, g.h0), 2)), "the heights are off by at most two")
        return g
    def result(self, a, g, ret):
        """post: an AVL tree of the same items at *p; its height"""
        ctx = a.ctx
        if a.verify:
            v = a.chunk(g.p, 8, "cell").get(0, P); pc, n, h = collapse(a, v)
            fits(a, pc, g.seq, g.lo, g.n, "the balanced tree"); sweep(a)
        else:
            h = ctx.fresh("h", 1, MAXH); v = ctx.fresh("top", 4096, 1 << 47)
            a.ex.store(g.p, P, v); mkavl(a, v, g.seq, g.lo, g.n, h); ctx.ghosts["old_h"] = g.old
        top = mx(g.h0, g.h1)
        a.fact(eq(ret, sub(h, g.old)), "the result is the change of the height")
        a.fact(If(bal(g.h0, g.h1), eq(h, add(1, top)), Or(eq(h, top), eq(h, add(1, top)))), "the height after balancing")

@register
class AvlHeight(AvlSpec):
    fn = "height"
    def pre(self, a, n):
        g = G()
        if not a.branch(eq(n, 0)):
            ctx = a.ctx; g.q = newavl(a, n, anyseq(a, 1), 0, ctx.fresh("n", 1, MAXN)); g.h = g.q.args.h
        else: g.h = 0
        return g
    def post(self, a, g, ret, n):
        a.fact(eq(ret, g.h), "the height of the tree; of no tree, zero")
        if not a.ctx.valid(eq(n, 0)): collapse(a, n)
        sweep(a)

@register
class AvlRot(Reb):
    fn = "rot"
    def pre(self, a, p, x, dir):
        a.fact(Or(eq(dir, 0), eq(dir, 1)), "a side")
        g = self.node(a, p, x)
        a.fact(eq(If(eq(dir, 1), sub(g.h1, g.h0), sub(g.h0, g.h1)), 2), "the side given is two deeper")
        if a.verify: a.branch(eq(dir, 0))
        return g
    def post(self, a, g, ret, p, x, dir): self.result(a, g, ret)

@register
class AvlBalance(Reb):
    fn = "__tsearch_balance"
    def pre(self, a, p): return self.node(a, p)
    def post(self, a, g, ret, p): self.result(a, g, ret)

# ------------------------------------------------------------------------------------------------ lookups
class Lookup(AvlSpec):
    """a tree sorted by RANK under *rootp, a key of rank r"""
    off = 0
    def fnptr(self, ex, target, vals, rt):
        g = self.g; ctx = ex.ctx
        ctx.prove(eq(target, g.cmp), "the comparison function given is used"); ctx.prove(eq(vals[0], g.cxt), "the context is passed on")
        ctx.prove(eq(vals[1], g.key), "the key is compared")
        r = ctx.fresh("cmp", -(1 << 31), (1 << 31) - 1)
        ctx.assume(sign_is(r, g.R.get(ctx, vals[1]), g.R.get(ctx, vals[2])))
        return r
    def pre(self, a, cxt, key, rootp, cmp):
        ctx = a.ctx; g = G(cxt=cxt, key=key, cmp=cmp, none=False)
        ctx.assume(Or(eq(rootp, 0), ge(rootp, 4096)))
        if a.branch(eq(rootp, 0)): g.none = True; return g
        g.R = Base(ctx, "RANK", 8, True, False); g.n = ctx.fresh("n", 0, MAXN - 2); g.rootp = rootp
        g.seq = anyseq(a, g.n, g.R); g.r = g.R.get(ctx, key)
        g.root = ctx.fresh("root", 0, 1 << 47)
        c = a.chunk(rootp, 8, "root pointer", kind="caller"); c.set(0, P, g.root); c.ch.ro = self.lent; c.ch.shared = self.lent
        g.h = newavl(a, g.root, g.seq, 0, g.n, self.lent).args.h
        return g
    lent = False
    def split(self, a, g, lo, n):
        """what is left and right of the interval has other ranks"""
        ctx = a.ctx; S = g.seq.S; R = g.R
        a.forall([S], lambda j: And(Implies(And(le(0, j), lt(j, lo)), lt(R.get(ctx, S.get(ctx, j)), g.r)), Implies(And(le(add(lo, n), j), lt(j, g.n)), lt(g.r, R.get(ctx, S.get(ctx, j))))), "what the key is searched among is between smaller and greater items")
    def bounds(self, a, g, lo, n): a.fact(And(le(0, lo), ge(n, 0), le(add(lo, n), g.n)), "a part of the tree")
    def now(self, a, L):
        """the subtree the search is in"""
        ctx = a.ctx
        if a.produce:
            t = G(lo=ctx.fresh("lo", 0, MAXN), n=ctx.fresh("n", 0, MAXN), h=ctx.fresh("h", 0, MAXH), v=ctx.fresh("cur", 0, 1 << 47))
            L.let(a, "n", t.v); return t
        v = L.v("n"); q = find_avl(ctx, v)
        if q is None: ctx.fail("the search goes on in a subtree", kind="own")
        if not q.args.lent: ctx.heap.remove(q)
        return G(lo=q.args.lo, n=q.args.n, h=q.args.h, v=v)
    def array(self, a, L):
        cv = a.chunk(L.addr("a"), None if not a.produce else L.g.asz, "path", kind="local")
        if not a.produce: L.g.asz = cv.ch.size
        return cv.seg(0, 8, cval(L.g.asz) // 8, P)
    def down(self, a, L):
        ctx = a.ctx; g = L.g
        k = ctx.fresh("k", 1, 200) if a.produce else 1 if L.entry else simp(add(g.k, 1))
        t = self.now(a, L); self.bounds(a, g, t.lo, t.n)
        L.let(a, "i", simp(add(k, self.off)), "the path grows by one cell per level") if a.produce else ctx.prove(eq(L.v("i"), add(k, self.off)), "the path grows by one cell per level", kind="own")
        AR = self.array(a, L)
        O = G(lo=0, n=g.n, h=g.h, v=None)
        if a.produce:
            ctx.assume(eq(AR.get(ctx, 0), g.rootp))
            mkpath(a, g.seq, 1, k, AR, self.off, O, t, root=g.rootp); mkavl(a, t.v, g.seq, t.lo, t.n, t.h); g.k = k; g.t = t; g.AR = AR
        else:
            ctx.prove(eq(AR.get(ctx, 0), g.rootp), "the path array starts at the root pointer", kind="own")
            keep_path(a, g.seq, 1, k, AR, self.off, O, t, AR.get(ctx, simp(add(sub(k, 1), self.off))))
            sweep(a)
        self.split(a, g, t.lo, t.n)
    # the way up: what was put into the hole may have changed its height by 'grow'
    grow = 1
    def target(self, a, g): pass
    def up(self, a, L):
        ctx = a.ctx; g = L.g
        if not a.produce and L.entry: self.begin(a, L, g)
        elif not a.produce:
            g.I2 = None
        d = self.grow
        if a.produce:
            k = ctx.fresh("k", 1, 200); I = G(lo=ctx.fresh("lo", 0, MAXN), n=ctx.fresh("n", 0, MAXN), h=ctx.fresh("h", 0, MAXH), v=ctx.fresh("cur", 0, 1 << 47))
            hf = ctx.fresh("hf", 0, MAXH); ctx.assume(le(add(I.lo, I.n), g.n)); g.k = k
        elif L.entry:
            k, I = g.k, g.hole; I.v = a.ex.load(self.acell(a, L, k), P)
        else:
            k = simp(sub(g.k, 1)); I = G(h=ctx.ghosts["old_h"], v=a.ex.load(self.acell(a, L, k), P))
        L.let(a, "i", simp(add(k, self.off - 1 if self.off == 0 else 0)), "one level per step") if a.produce else ctx.prove(eq(L.v("i"), add(k, self.off - 1 if self.off == 0 else 0)), "one level per step", kind="own")
        if a.produce:
            AR = self.array(a, L); ctx.assume(eq(AR.get(ctx, 0), g.rootp))
            O = G(lo=0, n=g.n, h=g.h, v=None)
            mkpath(a, g.old, 1, k, AR, self.off, O, I, root=g.rootp); mkavl(a, I.v, g.new, I.lo, simp(add(I.n, d)), hf); ctx.ghosts["seq"] = g.new
        else:
            if L.entry:
                pc, n, hf = collapse(a, I.v); fits(a, pc, g.new, I.lo, simp(add(I.n, d)), "what is put in place")
            else:
                q = find_avl(ctx, I.v)
                if q is None or q.args.seq is not g.new: ctx.fail("the balanced tree is in place", kind="own")
                ctx.heap.remove(q); I.lo, I.n, hf = q.args.lo, simp(sub(q.args.n, d)), q.args.h
            cell = self.acell(a, L, k)
            AR = self.array(a, L); ctx.prove(eq(AR.get(ctx, 0), g.rootp), "the path array starts at the root pointer", kind="own")
            O = G(lo=0, n=g.n, h=g.h, v=None)
            keep_path(a, g.old, 1, k, AR, self.off, O, I, cell, what="the path upwards"); sweep(a)
        a.fact(self.inhole(g, I), "the change is inside the part rebuilt")
        a.fact(And(le(0, I.lo), ge(I.n, 0 if d > 0 else 1)), "a part of the tree")
        a.fact(Or(eq(hf, I.h), eq(hf, add(I.h, d))), "the height changed by at most one")
    def acell(self, a, L, k):
        return a.ex.load(simp(add(L.addr("a"), mul(8, add(sub(k, 1), self.off)))), P, dict(stride=8, abase=L.addr("a")))

@register
class AvlFind(Lookup):
    """the node of the item of equal rank, if there is one"""
    fn = "musl_tfind"; lent = True; loops = {("musl_tfind", 0): "search"}
    def search(self, a, L):
        ctx = a.ctx; g = L.g; t = self.now(a, L); self.bounds(a, g, t.lo, t.n)
        if a.produce: mkavl(a, t.v, g.seq, t.lo, t.n, t.h, True); g.t = t
        self.split(a, g, t.lo, t.n)
    def post(self, a, g, ret, cxt, key, rootp, cmp):
        ctx = a.ctx
        if g.none: a.fact(eq(ret, 0), "nothing is found in no tree"); return
        found(self, a, g, ret)
def found(sp, a, g, ret):
    ctx = a.ctx
    if a.branch(eq(ret, 0)):
        j = ctx.fresh("j", 0, MAXN)
        a.fact(Implies(lt(j, g.n), ne(g.R.get(ctx, g.seq.S.get(ctx, j)), g.r)), "nothing is found only if no item has the key's rank"); return
    i = info_of(a, ret)
    a.fact(And(eq(g.seq.node(ctx, i.m), ret), eq(g.R.get(ctx, g.seq.item(ctx, i.m)), g.r)), "the node returned holds the item of the key's rank")

@register
class AvlSearch(Lookup):
    """the item of equal rank is found, or the key is inserted where the order wants it; balance and order are kept"""
    fn = "musl_tsearch"; loops = {("musl_tsearch", 0): "down", ("musl_tsearch", 1): "up"}
    def begin(self, a, L, g):
        ctx = a.ctx; ix = g.t.lo; S, NS = g.seq.S, g.seq.NS; r = L.v("r")
        g.ix = ix; g.old = g.seq; g.hole = G(lo=ix, n=0, h=0)
        g.new = Seq(Fun(lambda j: If(lt(j, ix), S.get(ctx, j), If(eq(j, ix), g.key, S.get(ctx, simp(sub(j, 1)))))), Fun(lambda j: If(lt(j, ix), NS.get(ctx, j), If(eq(j, ix), r, NS.get(ctx, simp(sub(j, 1)))))))
    def inhole(self, g, I): return And(le(I.lo, g.ix), le(g.ix, add(I.lo, I.n)))
    def post(self, a, g, ret, cxt, key, rootp, cmp):
        ctx = a.ctx
        if g.none: a.fact(eq(ret, 0), "no tree"); return
        if getattr(g, "new", None) is None:
            found(self, a, g, ret); whole(a, g.rootp, g.seq, g.n, "the tree searched"); return
        ix = g.ix; S = g.new.S; R = g.R
        whole(a, g.rootp, g.new, simp(add(g.n, 1)), "the tree with the new item")
        a.fact(eq(ret, g.new.node(ctx, ix)), "the new node is returned")
        i, j = ctx.fresh("i", 0, MAXN), ctx.fresh("j", 0, MAXN)
        g.seq.at(If(lt(j, ix), j, simp(sub(j, 1)))); g.seq.at(If(lt(i, ix), i, simp(sub(i, 1))))
        a.fact(Implies(And(lt(i, j), le(j, g.n)), lt(R.get(ctx, S.get(ctx, i)), R.get(ctx, S.get(ctx, j)))), "the items are in order, no two of equal rank")

@register
class AvlDelete(Lookup):
    """the item of equal rank, if any, is gone with one node; balance and order are kept"""
    fn = "musl_tdelete"; off = 1; grow = -1
    loops = {("musl_tdelete", 0): "down", ("musl_tdelete", 1): "pred", ("musl_tdelete", 2): "up"}
    def peek(self, ex, addr, ty):
        """the content of the last but one cell of the path, without taking the path apart"""
        ctx = ex.ctx
        if ctx.ghosts.get("nopeek") or isc(addr): return None
        for q in preds(ctx, "path"):
            s = q.args
            if s.base is None and addr.get_id() == T(s.AR.get(ctx, simp(add(sub(s.k, 2), s.off)))).get_id():
                return s.I.v if ctx.branch(eq(s.k, s.b)) else s.above
        return None
    def pred(self, a, L):
        """down to the predecessor: the last item of the left subtree"""
        ctx = a.ctx; g = L.g
        if not a.produce and L.entry:
            g.D = L.v("deleted"); g.di = info_of(a, g.D); g.k1 = g.k; g.AR1 = g.AR
            q = find_avl(ctx, L.v("n"))
            if q is None: ctx.fail("the left subtree", kind="own")
            g.top = G(lo=q.args.lo, n=q.args.n, h=q.args.h, v=L.v("n"))
        b = simp(add(g.k1, 1)); base = simp(add(g.D, LEFT))
        k = ctx.fresh("k", 2, 200) if a.produce else b if L.entry else simp(add(g.k, 1))
        t = self.now(a, L); self.bounds(a, g, t.lo, t.n)
        ctx.assume(eq(L.v("i"), add(k, 1))) if a.produce else ctx.prove(eq(L.v("i"), add(k, 1)), "the path grows by one cell per level", kind="own")
        if a.produce: L.let(a, "i", simp(add(k, 1)))
        a.fact(And(ne(t.v, 0), eq(add(t.lo, t.n), g.di.m)), "down the right edge of the left subtree")
        AR = self.array(a, L)
        j = ctx.fresh("j", 0, 200)
        if a.produce: ctx.addfact([AR], lambda j: Implies(And(le(0, j), le(j, g.k1)), eq(AR.get(ctx, j), g.AR1.get(ctx, j))))
        else: a.fact(Implies(le(j, g.k1), eq(AR.get(ctx, j), g.AR1.get(ctx, j))), "the path down to the item stays")
        if a.produce:
            mkpath(a, g.seq, b, k, AR, 1, g.top, t, base=base); mkavl(a, t.v, g.seq, t.lo, t.n, t.h); g.k = k; g.t = t; g.AR = AR
        else: keep_path(a, g.seq, b, k, AR, 1, g.top, t, AR.get(ctx, k), stop=base, what="the path to the predecessor"); sweep(a)
    def begin(self, a, L, g):
        ctx = a.ctx; S, NS = g.seq.S, g.seq.NS; n = info_of(a, L.v("n"))
        g.hole = G(lo=n.lo, n=n.n, h=n.h); x = g.x = n.m
        if getattr(g, "di", None) is None: m = x; g.old = g.seq
        else: m = g.di.m; g.old = Seq(S.store(m, S.get(ctx, simp(sub(m, 1)))), NS)
        g.m = m
        g.new = Seq(Fun(lambda j: If(lt(j, m), S.get(ctx, j), S.get(ctx, simp(add(j, 1))))), Fun(lambda j: If(lt(j, x), NS.get(ctx, j), NS.get(ctx, simp(add(j, 1))))))
    def inhole(self, g, I): return And(le(I.lo, g.x), lt(g.x, add(I.lo, I.n)))
    def post(self, a, g, ret, cxt, key, rootp, cmp):
        ctx = a.ctx
        if g.none: a.fact(eq(ret, 0), "no tree"); return
        if getattr(g, "new", None) is None:
            a.fact(eq(ret, 0), "an absent item is not found"); found(self, a, g, 0); whole(a, g.rootp, g.seq, g.n, "the tree searched"); return
        a.fact(And(eq(g.R.get(ctx, g.seq.S.get(ctx, g.m)), g.r), le(0, g.m), lt(g.m, g.n)), "the item deleted is the one of the key's rank")
        whole(a, g.rootp, g.new, simp(sub(g.n, 1)), "the tree without the item")

# ------------------------------------------------------------------------------------------------ walks
class Walk(AvlSpec):
    """for an arbitrary index X: how often the item X was handed out as leaf, preorder, postorder, endorder; POS: items handed
    out in order so far (as leaf or postorder)"""
    def __init__(self): Contract.__init__(self); self.views = {}
    def contract(self, name):
        if name in ("walk", "musl_tdestroy"): return CALLED[name]
        return Contract.contract(self, name)
    def fnptr(self, ex, target, vals, rt):
        ctx = ex.ctx; g = self.g; w = ctx.ghosts["walk"]; en = ex.tu.enumn
        from cvf.dsl import A
        a = A(ex, False)
        ctx.prove(eq(target, g.action), "the action given is called"); ctx.prove(eq(vals[0], g.cxt), "the context is passed on")
        i = info_of(a, vals[1]); ctx.prove(eq(vals[1], i.seq.node(ctx, i.m)), "a node of the tree is handed out")
        ctx.prove(eq(vals[3], g.d), "the depth is that of the node")
        for nm in ("leaf", "preorder", "postorder", "endorder"):
            if ctx.branch(eq(vals[2], en[nm])): break
        else: ctx.fail("a kind of visit")
        if nm in ("leaf", "postorder"):
            ctx.prove(eq(i.m, w["pos"]), "the items are handed out in order"); w["pos"] = simp(add(w["pos"], 1))
        w[nm] = simp(add(w[nm], If(eq(i.m, w["X"]), 1, 0)))
    def start(self, a): 
        ctx = a.ctx; ctx.ghosts["walk"] = dict(X=ctx.fresh("X", 0, MAXN), pos=0, leaf=0, preorder=0, postorder=0, endorder=0, freed=0)
KINDS = ("leaf", "preorder", "postorder", "endorder")
def visited(a, g, w0, w):
    ctx = a.ctx; X = w["X"]; inn = And(le(g.lo, X), lt(X, add(g.lo, g.n)))
    d = [sub(w[k], w0[k]) for k in KINDS]
    isl = And(eq(d[0], 1), *[eq(x, 0) for x in d[1:]]); full = And(eq(d[0], 0), *[eq(x, 1) for x in d[1:]]); none = And(*[eq(x, 0) for x in d])
    a.fact(If(inn, Or(isl, full), none), "every item is handed out once as leaf, or once each before, between and after its subtrees")
    a.fact(eq(w["pos"], add(g.lo, g.n)), "all items of the tree are handed out")

@register
class AvlWalk(Walk):
    fn = "walk"
    def pre(self, a, cxt, r, action, d):
        ctx = a.ctx; g = G(cxt=cxt, action=action, d=d)
        if a.verify:
            g.lo, g.n = ctx.fresh("lo", 0, MAXN), ctx.fresh("n", 0, MAXN); ctx.assume(lt(add(g.lo, g.n), MAXN)); g.seq = anyseq(a, add(g.lo, g.n))
            g.h = newavl(a, r, g.seq, g.lo, g.n, True).args.h; self.start(a); ctx.ghosts["walk"]["pos"] = g.lo
            g.w0 = dict(ctx.ghosts["walk"])
        else:
            q = find_avl(ctx, r)
            if q is None: ctx.fail("a tree is walked", kind="own")
            t = q.args; g.lo, g.n, g.h = t.lo, t.n, t.h; w = ctx.ghosts["walk"]; g.w0 = dict(w)
            ctx.prove(eq(w["pos"], g.lo), "the items are handed out in order")
        a.fact(And(ge(d, 0), le(add(d, g.h), 64)), "the depth")
        return g
    def post(self, a, g, ret, cxt, r, action, d):
        ctx = a.ctx; w = ctx.ghosts["walk"]
        if not a.verify:
            for k in KINDS: w[k] = ctx.fresh(k)
            w["pos"] = ctx.fresh("pos")
        visited(a, g, g.w0, w)

@register
class AvlTwalk(Walk):
    fn = "musl_twalk"
    def pre(self, a, cxt, root, action):
        ctx = a.ctx; g = G(cxt=cxt, action=action, d=0, lo=0); g.n = ctx.fresh("n", 0, MAXN); g.seq = anyseq(a, g.n)
        newavl(a, root, g.seq, 0, g.n, True); self.start(a); g.w0 = dict(ctx.ghosts["walk"])
        return g
    def post(self, a, g, ret, cxt, root, action): visited(a, g, g.w0, a.ctx.ghosts["walk"])

@register
class AvlDestroy(Walk):
    """every item is handed to freekey (if there is one) once, and every node is freed"""
    fn = "musl_tdestroy"
    def pre(self, a, cxt, root, freekey):
        ctx = a.ctx; g = G(cxt=cxt, action=freekey)
        if a.verify:
            g.lo, g.n = ctx.fresh("lo", 0, MAXN), ctx.fresh("n", 0, MAXN); ctx.assume(lt(add(g.lo, g.n), MAXN)); g.seq = anyseq(a, add(g.lo, g.n))
            newavl(a, root, g.seq, g.lo, g.n); self.start(a)
        else:
            q = find_avl(ctx, root)
            if q is None: ctx.fail("a tree is destroyed", kind="own")
            if q.ro: ctx.fail("the tree is outside the frame here", kind="frame")
            ctx.heap.remove(q); g.lo, g.n = q.args.lo, q.args.n
            ctx.prove(And(eq(cxt, self.outer.g.cxt), eq(freekey, self.outer.g.action)), "context and function are passed on")
        g.w0 = dict(ctx.ghosts["walk"])
        return g
    def fnptr(self, ex, target, vals, rt):
        ctx = ex.ctx; g = self.g; w = ctx.ghosts["walk"]
        from cvf.dsl import A
        ctx.prove(eq(target, g.action), "the function given is called"); ctx.prove(eq(vals[0], g.cxt), "the context is passed on")
        for x, i in reversed(ctx.ghosts.get("nodes", [])):
            if ctx.same(i.seq.item(ctx, i.m), vals[1]):
                w["freed"] = simp(add(w["freed"], If(eq(i.m, w["X"]), 1, 0))); return
        ctx.fail("an item of the tree is handed out")
    def post(self, a, g, ret, cxt, root, freekey):
        ctx = a.ctx; w = ctx.ghosts["walk"]
        if not a.verify: w["freed"] = ctx.fresh("freed")
        a.fact(eq(w["freed"], add(g.w0["freed"], If(And(ne(freekey, 0), le(g.lo, w["X"]), lt(w["X"], add(g.lo, g.n))), 1, 0))), "every item is handed out once")
        sweep(a)
CALLED = {}
def _called():
    for fn, c in (("walk", AvlWalk), ("musl_tdestroy", AvlDestroy)):
        CALLED[fn] = c(); CALLED[fn].outer = next(s for s in SPECS if type(s) is c)
from cvf.dsl import SPECS
_called()
