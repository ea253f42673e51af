"""musl-hsearch.c (C06): the open-addressing table behind cee_dict.

Texts are known by identity: TEXT(p) is the text at p; two keys compare equal exactly when their TEXT is the same, and
keyhash is HASH of it (KeyHash proves that the result is the recurrence over the bytes up to the NUL, nothing else).
PROBE(h,n)/STEP(n) are the n-th probe position and increment; slot(h,n) = PROBE(h,n) & mask.
A table K, D (keys and values per slot) represents the finite map IN/VAL from texts to values through the ghosts X (slot of a
text) and N (probe count at which the slot's key was put) and C (number of occupied slots below):
 I1 a slot x in use has slot(HASH(TEXT K[x]), N[x]) = x, IN, D[x] = VAL, X(TEXT K[x]) = x
 I2 every earlier probe position of its key is in use as well
 I3 a text of the map sits in slot X
 I4 'used' is the number of slots in use: C[0] = 0, C[x+1] = C[x] + (K[x] != 0), used = C[mask+1]
 I5 used <= mask: there is a free slot (with a power-of-two size the triangular probe sequence meets it: proved in lemmas/probing.v)"""
from .base import *

SZT = 1 << 64
def nat(ctx, name):
    x = ctx.fresh(name); ctx.assume(ge(x, 0)); return x
def zf(a, name, *xs, b=False):
    r = z3.Function(name, *([z3.IntSort()] * len(xs) + [z3.BoolSort() if b else z3.IntSort()]))(*[T(x) for x in xs])
    a.ctx.keep.append(r); return r
def TEXT(a, p): return zf(a, "TEXT", p)
def HASH(a, t):
    r = zf(a, "HASH", t); a.ctx.assume(And(le(0, r), lt(r, SZT))); return r
def PROBE(a, h, n): return zf(a, "PROBE", h, n)
def STEP(a, n): return zf(a, "STEP", n)
def prange(a, h, n):
    i, j = PROBE(a, h, n), STEP(a, n)
    a.ctx.assume(And(le(0, i), lt(i, SZT), le(0, j), lt(j, SZT)))
def pstart(a, h): a.ctx.assume(And(eq(PROBE(a, h, 0), h), eq(STEP(a, 0), 1)))
def wrap64(x): return If(ge(x, SZT), sub(x, SZT), x)
def pnext(a, h, n):
    m = simp(add(n, 1)); prange(a, h, n)
    a.ctx.assume(And(eq(PROBE(a, h, m), wrap64(add(PROBE(a, h, n), STEP(a, n)))), eq(STEP(a, m), wrap64(add(STEP(a, n), 1)))))
    prange(a, h, m)
def slot(a, mask, h, n):
    p = PROBE(a, h, n); prange(a, h, n)
    r = zf(a, "band", p, mask); a.ctx.assume(And(le(0, r), le(r, mask), eq(r, zf(a, "band", mask, p)))); return r
def POW2(a, x): return zf(a, "POW2", x, b=True)

def strcmp_ids(ex):
    """strcmp over text identities"""
    def f(n, args):
        ctx = ex.ctx; p, q = ex.ev(args[0]), ex.ev(args[1])
        ctx.prove(And(ne(p, 0), ne(q, 0)), "strcmp is given texts", kind="own")
        from cvf.dsl import A
        a = A(ex, True); r = ctx.fresh("cmp", -(1 << 31), (1 << 31) - 1)
        ctx.assume(Iff(eq(r, 0), eq(TEXT(a, p), TEXT(a, q)))); return r
    return f

class HashSpec(Contract):
    props = ("C06",); boundable = False
    def builtin(self, ex, name): return strcmp_ids(ex) if name == "strcmp" else None

@register
class KeyHash(HashSpec):
    """verified: the recurrence h = 31*h + byte over the bytes before the NUL; for callers: HASH of the text"""
    fn = "keyhash"; loops = {("keyhash", 0): "byte"}
    def pre(self, a, k):
        if not a.verify:
            a.fact(ne(k, 0), "the key is a text"); return G()
        ctx = a.ctx; arr, n = text_in(a, k, "key", 1 << 30)
        g = G(arr=arr, n=n, k=k, R=Base(ctx, "HREC", 8, False)); ctx.assume(eq(g.R.get(ctx, 0), 0))
        return g
    def byte(self, a, L):
        ctx = a.ctx; g = L.g
        if a.produce: q = g.q = ctx.fresh("q", 0, 1 << 30)
        elif L.entry: q = 0
        else:
            q = simp(add(g.q, 1)); b = g.arr.get(ctx, g.q)
            ctx.assume(eq(g.R.get(ctx, q), T(simp(add(mul(31, g.R.get(ctx, g.q)), If(lt(b, 0), add(b, 256), b)))) % SZT))
        a.fact(le(q, g.n), "within the key")
        L.let(a, "p", add(g.k, q)) if a.produce else a.ctx.prove(eq(L.v("p"), add(g.k, q)), "the bytes are taken in order", kind="own")
        if a.produce: ctx.assume(And(le(0, g.R.get(ctx, q)), lt(g.R.get(ctx, q), SZT)))
        L.let(a, "h", g.R.get(ctx, q)) if a.produce else a.ctx.prove(eq(L.v("h"), g.R.get(ctx, q)), "the hash is that of the bytes so far", kind="own")
    def post(self, a, g, ret, k):
        ctx = a.ctx
        if a.produce and not a.verify: return HASH(a, TEXT(a, k))
        a.ctx.prove(eq(ret, g.R.get(ctx, g.n)), "the hash is a function of the key's bytes", kind="own")

# ------------------------------------------------------------------------------------------------ the table
def table(a, tab, ro=False, new=False):
    """the memory of a table"""
    ctx = a.ctx
    tc = a.chunk(tab, 24, "table", ro=ro); o = lambda f: a.tu.off("__tab", f)
    ent, mask, used = tc.get(o("entries"), P), tc.get(o("mask")), tc.get(o("used"))
    a.fact(And(ge(mask, 7), lt(mask, 1 << 40)), "the mask is that of a table")
    n = simp(add(mask, 1))
    ec = a.chunk(ent, simp(mul(16, n)), "entries", ro=ro)
    h = G(tab=tab, tc=tc, ec=ec, ent=ent, mask=mask, used=used)
    h.K, h.D = ec.seg(0, 16, n, P, fo=0, name="K"), ec.seg(0, 16, n, P, fo=8, name="D")
    return h
def ghosts(a, h, **kw):
    ctx = a.ctx
    h.N, h.X, h.C = (Base(ctx, x, 8, False, False) for x in ("N", "X", "C"))
    h.IN, h.VAL = kw.get("IN") or BBase(ctx, "IN"), kw.get("VAL") or Base(ctx, "VAL", 8, False, False)
    return h
def I1(a, h, x):
    ctx = a.ctx; k = h.K.get(ctx, x); t = TEXT(a, k); n = h.N.get(ctx, x)
    return Implies(And(le(0, x), le(x, h.mask), ne(k, 0)),
                   And(le(0, n), eq(slot(a, h.mask, HASH(a, t), n), x), h.IN.get(ctx, t), eq(h.D.get(ctx, x), h.VAL.get(ctx, t)), eq(h.X.get(ctx, t), x)))
def I2(a, h, x, m):
    ctx = a.ctx; k = h.K.get(ctx, x); s = slot(a, h.mask, HASH(a, TEXT(a, k)), m)
    return Implies(And(le(0, x), le(x, h.mask), ne(k, 0), le(0, m), lt(m, h.N.get(ctx, x))), ne(h.K.get(ctx, s), 0))
def I3(a, h, t):
    ctx = a.ctx; x = h.X.get(ctx, t); k = h.K.get(ctx, x)
    return Implies(h.IN.get(ctx, t), And(le(0, x), le(x, h.mask), ne(k, 0), eq(TEXT(a, k), t)))
def I4(a, h, x):
    ctx = a.ctx
    return And(eq(h.C.get(ctx, 0), 0), eq(h.used, h.C.get(ctx, simp(add(h.mask, 1)))),
               Implies(And(le(0, x), le(x, h.mask)), eq(h.C.get(ctx, simp(add(x, 1))), add(h.C.get(ctx, x), If(ne(h.K.get(ctx, x), 0), 1, 0)))))
def I5(a, h): return And(POW2(a, simp(add(h.mask, 1))), le(h.used, h.mask))
def holds(a, h, load=True):
    """assume the invariant"""
    ctx = a.ctx; ctx.addfact(ctx.arr_bases(h.K), lambda x: I1(a, h, x))
    ctx.assume(I4(a, h, 0))
    ctx.assume(I5(a, h) if load else POW2(a, simp(add(h.mask, 1))))
    return h
def at(a, h, x, m, t):
    """assume the other parts at some indices"""
    ctx = a.ctx; ctx.assume(I2(a, h, x, m)); ctx.assume(I3(a, h, t)); ctx.assume(I4(a, h, x))
def prove_inv(a, h, x, m, t, load=True, what=""):
    f = lambda c, l: a.ctx.prove(c, what + l)
    f(I1(a, h, x), "a slot's key probes to the slot, with the value of its text")
    f(I2(a, h, x, m), "no free slot on the way to a key")
    f(I3(a, h, t), "every text of the table has its slot")
    f(I4(a, h, x), "'used' counts the slots in use")
    f(I5(a, h) if load else POW2(a, simp(add(h.mask, 1))), "power-of-two size with free slots")

class LK:
    """what a lookup found: the slot r is the n-th probe position of the key"""
    def __init__(self, a, h, key, hash, n):
        self.h, self.key, self.hash, self.n = h, key, hash, n; self.r = slot(a, h.mask, hash, n)
    def before(self, a, m):
        ctx = a.ctx; h = self.h; k = h.K.get(ctx, slot(a, h.mask, self.hash, m))
        return Implies(And(le(0, m), lt(m, self.n)), And(ne(k, 0), ne(TEXT(a, k), TEXT(a, self.key))))
    def here(self, a):
        k = self.h.K.get(a.ctx, self.r)
        return Or(eq(k, 0), eq(TEXT(a, k), TEXT(a, self.key)))

@register
class HLookup(HashSpec):
    fn = "lookup"; loops = {("lookup", 0): "probe"}
    def pre(self, a, key, hash, htab):
        if a.verify: tab = a.chunk(htab, 16, "htab", ro=True).get(0, P)
        else: tab = a.ex.load(htab, P)
        a.fact(ne(key, 0), "the key is a text")
        g = G(h=table(a, tab, ro=True), M=nat(a.ctx, "M"), hash=hash, key=key)
        return g
    def probe(self, a, L):
        ctx = a.ctx; g = L.g
        if a.produce: n = nat(ctx, "n")
        elif L.entry: n = 0; pstart(a, g.hash)
        else: n = simp(add(g.n, 1)); pnext(a, g.hash, g.n)
        prange(a, g.hash, n)
        L.let(a, "i", PROBE(a, g.hash, n), "the probe position"); L.let(a, "j", STEP(a, n), "the increment")
        lk = LK(a, g.h, g.key, g.hash, n)
        a.fact(lk.before(a, g.M), "the slots probed before hold other keys")
        if a.produce: g.n, g.lk = n, lk
    def post(self, a, g, ret, key, hash, htab):
        ctx = a.ctx; h = g.h
        if a.verify:
            a.fact(eq(ret, add(h.ent, mul(16, g.lk.r))), "the entry at the probe position")
            a.fact(g.lk.before(a, g.M), "the slots probed before hold other keys")
            a.fact(g.lk.here(a), "the entry is free or has the key")
            return
        lk = LK(a, h, key, hash, nat(ctx, "n")); ctx.assume(lk.here(a))
        ctx.ghosts["lk"] = lk; ctx.ghosts["looked"] = ctx.ghosts.get("looked", []) + [(lk, ctx.ghosts.get("ht"))]
        return simp(add(h.ent, mul(16, lk.r)))

def fresh_arrays(a, h):
    return G(N=Base(a.ctx, "N", 8, False, False), X=Base(a.ctx, "X", 8, False, False), C=Base(a.ctx, "C", 8, False, False))
def bump(C, r): return Fun(lambda k: add(C.get(bump.ctx, k), If(gt(k, r), 1, 0)))
def entered(a, h, lk, D):
    """the ghosts after lk's key was put at its free slot (K and D are the arrays afterwards)"""
    ctx = a.ctx; t = TEXT(a, lk.key); C = h.C
    n = G(tab=h.tab, mask=h.mask, ent=h.ent, used=simp(add(h.used, 1)), IN=h.IN.store(t, True), VAL=h.VAL.store(t, D.get(ctx, lk.r)))
    n.N, n.X = h.N.store(lk.r, lk.n), h.X.store(t, lk.r)
    n.C = Fun(lambda k: add(C.get(ctx, k), If(gt(k, lk.r), 1, 0)))
    return n

@register
class HResize(HashSpec):
    """every entry of the old table is in the new one"""
    fn = "resize"; loops = {("resize", 0): "grow", ("resize", 1): "each", ("resize", 2): "probe"}
    def pre(self, a, nel, htab):
        ctx = a.ctx; o = lambda f: a.tu.off("__tab", f)
        a.fact(lt(nel, 1 << 38), "table size within limits")
        g = G(nel=nel, htab=htab, Y=nat(ctx, "Y"), M=nat(ctx, "M"), t=ctx.fresh("t"))
        if a.verify:
            g.tab = a.chunk(htab, 16, "htab", ro=True).get(0, P)
            g.first = a.branch(eq(ctx.fresh("first", 0, 1), 1))
            if not g.first: g.old = holds(a, ghosts(a, table(a, g.tab)), load=False); at(a, g.old, g.Y, g.M, g.t)
        else:
            g.tab = a.ex.load(htab, P)
            f = ctx.find(simp(g.tab))
            g.first = f is not None and cval(simp(CV_(a, f).get(o("entries"), P))) == 0
            if not g.first:
                x, m, t = (ctx.fresh(q) for q in "xmt")
                g.old = h = settle(a, table(a, g.tab), x, m, t)
                prove_inv(a, h, x, m, t, load=False, what="before the table grows: ")
        if g.first:
            tc = a.chunk(g.tab, 24, "table"); tc.set(o("entries"), P, 0); tc.set(o("mask"), U64, 0); tc.set(o("used"), U64, 0)
        return g
    def grow(self, a, L):
        s = L.v("newsize"); a.ctx.assume(POW2(a, 8))
        if a.produce: L.g.s0 = s
        elif not L.entry: a.ctx.assume(Implies(POW2(a, L.g.s0), POW2(a, simp(mul(2, L.g.s0)))))
        a.fact(And(ge(s, 8), POW2(a, s), Or(eq(s, 8), lt(s, mul(2, L.g.nel)))), "a power of two")
    def each(self, a, L):
        ctx = a.ctx; g = L.g; old = g.old; o = lambda f: a.tu.off("__tab", f)
        if a.produce: q = g.q = nat(ctx, "q")
        elif L.entry: q = 0
        else: q = simp(add(g.q, 1))
        a.fact(le(q, add(old.mask, 1)), "within the old table")
        L.let(a, "e", add(old.ent, mul(16, q)), "the entries are moved in order")
        tc = a.ex.ctx.find(simp(g.tab))
        ent = a.ex.load(simp(add(g.tab, o("entries"))), P); mask = a.ex.load(simp(add(g.tab, o("mask"))), U64); n = simp(add(mask, 1))
        ec = a.chunk(ent, simp(mul(16, n)), "new entries")
        h = G(mask=mask, ent=ent, IN=old.IN, VAL=old.VAL, ec=ec)
        h.K, h.D = ec.seg(0, 16, n, P, fo=0, name="K2"), ec.seg(0, 16, n, P, fo=8, name="D2")
        if a.produce: f = fresh_arrays(a, h); g.ins = None
        elif L.entry: f = fresh_arrays(a, h); ctx.assume(And(eq(f.C.get(ctx, 0), 0), eq(f.C.get(ctx, n), 0), eq(f.C.get(ctx, g.Y), 0), eq(f.C.get(ctx, simp(add(g.Y, 1))), 0)))
        else:
            f = g.new
            if g.ins is not None:
                hh, nn = g.ins; r = slot(a, mask, hh, nn); t = TEXT(a, old.K.get(ctx, g.q)); C = f.C
                f = G(N=f.N.store(r, nn), X=f.X.store(t, r), C=Fun(lambda k: add(C.get(ctx, k), If(gt(k, r), 1, 0))))
        h.N, h.X, h.C = f.N, f.X, f.C
        h.used = h.C.get(ctx, n)
        if not a.produce: ctx.assume(I4(a, old, g.q)) if not L.entry else None
        Y, M, t0 = g.Y, g.M, g.t
        # J1 at Y
        k = h.K.get(ctx, Y); t = TEXT(a, k); nn = h.N.get(ctx, Y); x0 = old.X.get(ctx, t)
        a.fact(Implies(And(le(0, Y), le(Y, mask), ne(k, 0)), And(le(0, nn), eq(slot(a, mask, HASH(a, t), nn), Y), eq(h.X.get(ctx, t), Y))), "a moved key probes to its slot")
        a.fact(Implies(And(le(0, Y), le(Y, mask), ne(k, 0)), And(le(0, x0), lt(x0, q), eq(old.K.get(ctx, x0), k), eq(old.D.get(ctx, x0), h.D.get(ctx, Y)))), "a moved entry is one of the old table")
        a.fact(I2(a, h, Y, M), "no free slot on the way to a moved key")
        x, o0 = h.X.get(ctx, t0), old.X.get(ctx, t0)
        a.fact(Implies(And(old.IN.get(ctx, t0), lt(o0, q)), And(le(0, x), le(x, mask), eq(h.K.get(ctx, x), old.K.get(ctx, o0)), eq(h.D.get(ctx, x), old.D.get(ctx, o0)))), "every entry passed is moved")
        a.fact(And(eq(h.C.get(ctx, 0), 0), eq(h.C.get(ctx, n), old.C.get(ctx, q)), Implies(And(le(0, Y), le(Y, mask)), eq(h.C.get(ctx, simp(add(Y, 1))), add(h.C.get(ctx, Y), If(ne(k, 0), 1, 0))))), "as many entries as passed")
        if a.produce: g.new = h
    def probe(self, a, L):
        ctx = a.ctx; g = L.g; old = g.old; h = g.new
        hh = HASH(a, TEXT(a, old.K.get(ctx, g.q)))
        if a.produce: n = nat(ctx, "n")
        elif L.entry: n = 0; pstart(a, hh)
        else: n = simp(add(g.ins[1], 1)); pnext(a, hh, g.ins[1])
        prange(a, hh, n)
        L.let(a, "i", PROBE(a, hh, n), "the probe position"); L.let(a, "j", STEP(a, n), "the increment")
        a.fact(Implies(lt(g.M, n), ne(h.K.get(ctx, slot(a, h.mask, hh, g.M)), 0)), "the slots probed before are in use")
        if a.produce: g.ins = (hh, n)
    def post(self, a, g, ret, nel, htab):
        ctx = a.ctx; o = lambda f: a.tu.off("__tab", f)
        a.fact(eq(ret, 1), "the table has the new size")
        h = table(a, g.tab)
        a.fact(And(ge(add(h.mask, 1), nel), POW2(a, simp(add(h.mask, 1)))), "the size asked for")
        if g.first:
            k = ctx.fresh("k")
            if a.verify: a.fact(Implies(And(le(0, k), le(k, h.mask)), eq(h.K.get(ctx, k), 0)), "the new table is empty")
            else: ctx.addfact(ctx.arr_bases(h.K), lambda x: Implies(And(le(0, x), le(x, h.mask)), eq(h.K.get(ctx, x), 0)))
            a.fact(eq(h.used, 0), "nothing in use"); ctx.ghosts["ht"] = h; return
        old = g.old
        a.fact(eq(h.used, old.used), "the number of entries stays")
        if a.verify:
            n = g.new; h.N, h.X, h.C, h.IN, h.VAL = n.N, n.X, n.C, old.IN, old.VAL
            prove_inv(a, h, g.Y, g.M, g.t, load=False, what="the grown table: ")
        else: 
            ghosts(a, h, IN=old.IN, VAL=old.VAL); holds(a, h, load=False); ctx.ghosts["ht"] = h; ctx.ghosts["settled"] = True
            return

def CV_(a, f):
    from cvf.dsl import CV
    return CV(a, f[0])
def settle(a, h, x, m, t):
    """the ghosts for the table's present content: those it had, or, with one entry put at the slot looked up, the extended ones"""
    ctx = a.ctx; old = ctx.ghosts["ht"]
    # x, m, t are arbitrary: what is known of the table at these and at the related places
    at(a, old, x, m, t)
    if h.K is old.K and h.D is old.D and ctx.valid(eq(h.used, old.used)): n = old
    else:
        lk = ctx.ghosts.get("lk")
        if lk is None: a.ctx.fail("a changed entry is one looked up", kind="own")
        ctx.assume(lk.before(a, m)); ctx.assume(I4(a, old, lk.r)); absent(a, old, lk)
        n = entered(a, old, lk, h.D)
    h.N, h.X, h.C, h.IN, h.VAL = n.N, n.X, n.C, n.IN, n.VAL
    return h
def absent(a, h, lk):
    """a lookup against the map: what it needs to know of the table"""
    ctx = a.ctx; t = TEXT(a, lk.key); ctx.assume(I3(a, h, t)); x = h.X.get(ctx, t)
    ctx.assume(I1(a, h, x)); ctx.assume(I2(a, h, x, lk.n)); ctx.assume(lk.before(a, h.N.get(ctx, x))); ctx.assume(I1(a, h, lk.r))

@register
class HSearch(HashSpec):
    """FIND gives the entry of the text or NULL; ENTER adds the text unless it is there"""
    fn = "musl_hsearch_r"
    def pre(self, a, item, action, retval, htab):
        ctx = a.ctx; g = G(key=item.cells[0][2], val=item.cells[8][2])
        a.fact(ne(g.key, 0), "the key is a text"); a.fact(And(le(0, action), le(action, 1)), "FIND or ENTER")
        if a.verify:
            g.tab = a.chunk(htab, 16, "htab", ro=True).get(0, P); a.chunk(retval, 8, "retval")
            g.h = h = holds(a, ghosts(a, table(a, g.tab))); ctx.ghosts["ht"] = h
            ctx.assume(lt(h.used, 1 << 36)); g.IN, g.VAL, g.used = h.IN, h.VAL, h.used
        else:
            g.tab = a.ex.load(htab, P)
            p = a.pred("htab", g.tab, None)
            if p is None: a.ctx.fail("the dict has its table", kind="own")
            g.IN, g.VAL, g.used = p.args.IN, p.args.VAL, p.args.used
            a.fact(lt(g.used, 1 << 36), "table size within limits")
        t = TEXT(a, g.key)
        g.c = "in" if a.branch(g.IN.get(ctx, t)) else "find" if a.branch(eq(action, a.tu.enumn["FIND"])) else "enter"
        return g
    def post(self, a, g, ret, item, action, retval, htab):
        ctx = a.ctx; t = TEXT(a, g.key)
        if a.verify:
            lk = ctx.ghosts.get("lk")
            if lk is None: a.ctx.fail("the key is looked up", kind="own")
            for l, h0 in ctx.ghosts["looked"]: absent(a, h0, l)
        a.fact(eq(ret, 0 if g.c == "find" else 1), "found or entered exactly when it should be")
        add1 = g.c == "enter"
        IN, VAL = (g.IN.store(t, True), g.VAL.store(t, g.val)) if add1 else (g.IN, g.VAL)
        if not a.verify:
            a.pred("htab", g.tab, G(IN=IN, VAL=VAL, used=simp(add(g.used, 1)) if add1 else g.used))
            if g.c == "find": a.ex.store(retval, P, 0); return
            e = ctx.fresh("entry", 4096, 1 << 47); c = Chunk(e, 16, "lent", False, "entry", init=True); c.ro = True; c.shared = True; ctx.addchunk(c)
            k = ctx.fresh("key", 4096, 1 << 47); ctx.assume(eq(TEXT(a, k), t)); c.cells[0] = (8, False, k); c.cells[8] = (8, False, VAL.get(ctx, t))
            a.ex.store(retval, P, e); return
        r = a.chunk(retval, 8, "retval").get(0, P)
        x, m, s = (ctx.fresh(q) for q in "xms")
        h = settle(a, table(a, g.tab), x, m, s)
        a.fact(eq(h.used, add(g.used, 1) if add1 else g.used), "the number of entries")
        prove_inv(a, h, x, m, s)
        y = ctx.fresh("txt")
        a.fact(Iff(h.IN.get(ctx, y), IN.get(ctx, y)), "the texts of the table are those it had and the one entered")
        a.fact(Implies(IN.get(ctx, y), eq(h.VAL.get(ctx, y), VAL.get(ctx, y))), "the value of every text is the first one entered for it")
        if g.c == "find": a.fact(eq(r, 0), "a missing key is not found"); return
        q = simp(h.X.get(ctx, t))
        ctx.assume(I3(a, ctx.ghosts["ht"], t))
        a.fact(eq(r, add(h.ent, mul(16, q))), "the entry is the one of the text")
        a.fact(And(eq(TEXT(a, h.K.get(ctx, q)), t), eq(h.D.get(ctx, q), VAL.get(ctx, t))), "the entry's value is the text's value")

@register
class HCreate(HashSpec):
    fn = "musl_hcreate_r"
    def pre(self, a, nel, htab):
        a.fact(lt(nel, 1 << 38), "table size within limits")
        if a.verify: a.chunk(htab, 16, "htab")
        return G()
    def post(self, a, g, ret, nel, htab):
        ctx = a.ctx; a.fact(ne(ret, 0), "the table is made")
        if not a.verify:
            t = ctx.fresh("tab", 4096, 1 << 47); a.ex.store(htab, P, t); empty(a, t); return
        tab = a.chunk(htab, 16, "htab").get(0, P); h = table(a, tab); x = ctx.fresh("x")
        a.fact(And(POW2(a, simp(add(h.mask, 1))), eq(h.used, 0)), "an empty table")
        a.fact(Implies(And(le(0, x), le(x, h.mask)), eq(h.K.get(ctx, x), 0)), "no slot is in use")
def empty(a, tab):
    """a table without entries is one of the empty map (I1 to I5 with C = 0)"""
    IN = BBase(a.ctx, "IN"); a.ctx.addfact([IN], lambda t: Not(IN.get(a.ctx, t)))
    a.pred("htab", tab, G(IN=IN, VAL=Base(a.ctx, "VAL", 8, False, False), used=0))

@register
class HDestroy(HashSpec):
    fn = "musl_hdestroy_r"
    def pre(self, a, htab):
        ctx = a.ctx
        if a.verify:
            c = a.chunk(htab, 16, "htab"); tab = c.get(0, P)
            if not a.branch(eq(tab, 0)): table(a, tab)
            return G()
        tab = a.ex.load(htab, P)
        if ctx.valid(eq(tab, 0)): return G()
        if a.pred("htab", tab, None) is None: ctx.fail("the table destroyed is owned here", kind="own")
        return G()
    def post(self, a, g, ret, htab):
        if a.verify: a.fact(eq(a.chunk(htab, 16, "htab").get(0, P), 0), "no table is left")
        else: a.ex.store(htab, P, 0)
