"""cee_json_snprint (C18): one round of its loop against a reference printer, for every value and depth.

The reference says, for the value on top and how far it has been printed, which pieces of text come next (indentation, delimiter,
escaped text, number, word) and which value is printed below it.  The pieces and their widths do not depend on whether there is a
buffer, so measuring and printing agree round by round; the buffer given is assumed to have the size measured, that is: at least
the offset after the next round, and the closing brackets of what is open.
Invariant: every level holds the value printed there, the container's elements or keys, how many have been printed and the
indentation.  pad, delimiter, str_append, push and the containers are seen as calls: C18 (printer.py), C01, C04, C19."""
from .base import *
from .hash import zf
from .parser import PV, own, depth, push as s_push, pop as s_pop, top as s_top, empty, full, st_of, part
from .json import kind
from .printer import TABS

NAMES = ("undefined", "null", "boolean", "double", "i64", "u64", "string", "blob", "object", "array", "strn")
def jkind(a, j): return zf(a, "JKIND2", j)
def size(a, l): return zf(a, "LSIZE", l)
def items(a, l): return zf(a, "LARR", l)
def width(a, *k):
    """the width of a piece: fixed by what it is"""
    w = zf(a, "WIDTH_" + k[0], *k[1:]) if k[0] != "raw" else len(k[1])
    if k[0] != "raw": a.ctx.assume(And(le(0, w), le(w, 1 << 32)))
    if k[0] == "pad": a.ctx.assume(eq(w, If(ne(k[2], 0), k[1], 0)))
    return w

class PSt:
    """what one round has done"""
def ps(a): return a.ctx.ghosts["parse"]
def emit(a, piece, offp):
    """a piece of text is printed at the running offset"""
    ctx = a.ctx; s = ps(a); o = a.ex.load(offp, U64)
    a.fact(eq(o, s.at), "pieces follow each other")
    s.pieces.append(piece); s.at = simp(add(o, width(a, *piece))); a.ex.store(offp, U64, s.at)
def bufis(a, buf): a.fact(eq(buf, ps(a).buf), "the buffer, or none, is passed on")
def cnt_of(a, cnt):
    o = a.tu.off("counter", "tabs"); return a.ex.load(simp(add(cnt, o)), U64)
def v_pad(a, ret, offp, buf, cnt, f):
    bufis(a, buf); emit(a, ("pad", cnt_of(a, cnt), f), offp)
def v_delim(a, ret, offp, buf, f, cnt, c):
    bufis(a, buf); emit(a, ("delim", c, cnt_of(a, cnt), f), offp)
def v_str(a, ret, out, offp, begin, n):
    bufis(a, out); emit(a, ("str", begin, n), offp)
def v_push(a, ret, st, tabs, more, sp, j):
    s = own(a, sp); a.ctx.prove(lt(depth(s), s.cap), "nothing is pushed on a full stack")
    s.items.append(G(tabs=tabs, more=more, j=j, st=st)); return a.ctx.fresh("counter", 4096, 1 << 47)
def v_mk(a, ret, st, pol, n):
    s = ps(a); s.sp = a.ctx.fresh("stack", 4096, 1 << 47); s.cap = n; s.d = 0; s.items = []; return s.sp
def v_del(a, ret, p):
    ctx = a.ctx; s = ps(a)
    if s.sp is not None and ctx.same(p, s.sp): s.sp = None; return
    r = ctx.find(simp(p)) or ctx.find_sem(p)
    if r is not None and r[0].kind == "gc" and not r[0].ro: s.gone.append(r[0]); ctx.heap.remove(r[0]); return
    if getattr(s, "lst", None) is not None and ctx.same(p, s.lst): s.nkeys += 1; return
    ctx.fail("what is deleted is a level taken from the stack or its list of keys", kind="own")
def v_str_of(a, ret, j): return zf(a, "TEXT", j)
def v_size(a, ret, l): return size(a, l)
def v_find(a, ret, m, k): return zf(a, "FOUND", m, k)
def v_bool(a, ret, j, r):
    b = zf(a, "BOOL", j); a.ctx.assume(And(le(0, b), le(b, 1))); a.ex.store(r, B8, b); return 0
def v_strn(a, ret, j, sp, np):
    n = zf(a, "STRNLEN", j); a.ctx.assume(And(le(0, n), lt(n, SZ)))
    a.ex.store(sp, P, zf(a, "STRN", j)); a.ex.store(np, U64, n)
def v_num(a, ret, buf, n, box):
    s = ps(a); w = width(a, "num", box); ctx = a.ctx
    if cval(simp(buf)) != 0:
        ctx.prove(eq(buf, simp(add(s.buf, s.at))), "the number is printed at the running offset")
        ctx.prove(eq(n, simp(add(w, 1))), "with room for the number and its end")
        s.num = box
    return w
def v_part(a, ret, j):
    r = part(a, j); a.ctx.assume(And(ge(r, 4096), le(r, 1 << 47))); return r
def v_blobsize(a, ret, b):
    n = zf(a, "BLOBSIZE", b); a.ctx.assume(And(le(0, n), lt(n, SZ))); return n
def v_strmk(a, ret, st, fmt, *r):
    s = ps(a); p = a.ctx.fresh("blobtext", 4096, 1 << 47); s.blobtext = p; return p

VIEWS = dict(pad=v_pad, delimiter=v_delim, str_append=v_str, push=v_push, cee_stack_mk_e=v_mk, cee_stack_pop=s_pop, cee_stack_top=s_top, cee_stack_empty=empty,
             cee_stack_full=full, cee_stack_push=s_push, cee_del=v_del, cee_json_to_str=v_str_of, cee_json_to_boolx=v_bool, cee_json_to_strn=v_strn, cee_json_to_blob=v_part,
             cee_json_to_boxed=v_part, cee_boxed_snprint=v_num, cee_block_size=v_blobsize, cee_str_mk=v_strmk, cee_list_size=v_size, cee_map_find=v_find)

def pieces(a, g):
    """the reference: what is printed for the value on top, and what is pushed or whether the level ends"""
    ctx = a.ctx; t = g.kd; f = g.f; tabs = g.tabs; pad = ("pad", tabs, f); d = lambda c: ("delim", ord(c), tabs, f)
    word = None
    if t == "null": word = [("raw", "null")]
    elif t == "undefined": word = [("raw", "undefined")]
    elif t == "boolean": word = [("raw", "true" if a.branch(ne(zf(a, "BOOL", g.j), 0)) else "false")]
    elif t == "string": word = [("str", zf(a, "TEXT", g.j), zf(a, "LEN", zf(a, "TEXT", g.j)))]
    elif t == "strn": word = [("str", zf(a, "STRN", g.j), zf(a, "STRNLEN", g.j))]
    elif t == "blob": word = [("str", ps(a).blobtext, zf(a, "LEN", ps(a).blobtext))]
    elif t in ("double", "i64", "u64"): word = [("num", part(a, g.j))]
    if word is not None: return [pad] + word + ([d(",")] if g.more else []), None
    o, c = "[]" if t == "array" else "{}"
    out = [d(o)] if g.first else []
    if g.more_items:
        x = g.item
        if t == "object": out += [pad, ("str", x, zf(a, "LEN", x)), d(":")]; x = zf(a, "FOUND", part(a, g.j), x)
        return out, x
    return out + [d(c)] + ([d(",")] if g.more else []), None

@register
class Snprint(Contract):
    fn = "cee_json_snprint"; props = ("C18",); boundable = False; nocall = True; cost = 40
    views = {k: PV(k, f) for k, f in VIEWS.items()}
    loops = {("cee_json_snprint", 0): "round"}
    def builtin(self, ex, name):
        def text(p):
            r = ex.ctx.find(simp(p)); lit = getattr(r[0], "text", None) if r else None
            return None if lit is None else "".join(chr(c) for c in lit if c)
        if name == "strlen":
            def f(n, args):
                p, = ex.a1(args); t = text(p)
                if t is not None: return len(t)
                a = A(ex, False); L = zf(a, "LEN", p); ex.ctx.assume(And(le(0, L), lt(L, SZ))); return L
            return f
        if name == "memcpy":
            def f(n, args):
                d, s, k = ex.a1(args); t = text(s); a = A(ex, False); q = ps(a)
                if t is None: raise Unsupported("copying a text that is not a word")
                ex.ctx.prove(eq(d, simp(add(q.buf, q.at))), "the word is printed at the running offset")
                ex.ctx.prove(eq(k, len(t)), "the whole word"); q.words.append(t); return d
            return f
        return None
    def pre(self, a, st, buf, n, j, f):
        ctx = a.ctx
        a.ctx.ghosts["parse"] = s = PSt(); s.sp = None; s.cap = 514; s.d = 0; s.items = []; s.tp = None; s.buf = buf; s.at = 0; s.pieces = []; s.words = []; s.gone = []; s.nkeys = 0; s.num = None; s.lst = None; s.blobtext = None
        g = G(f=f, buf=buf, j0=j, st=st, out=a.branch(ne(buf, 0)), closed=False)
        if g.out:
            ctx.assume(And(ge(buf, 4096), le(buf, 1 << 47))); g.cap = ctx.fresh("cap", 1, 1 << 47)
            g.bc = a.chunk(buf, g.cap, "buf"); g.bc.seg(0, 1, g.cap, CH, name="buf")
        return g
    def round(self, a, L):
        ctx = a.ctx; g = L.g; s = ps(a); C = "counter"
        for v, sz in (("b", 1), ("slen", 8), ("str", 8)): pass
        if a.produce:
            d = ctx.fresh("depth", 0, 514); s.d = d; s.cap = 514; s.items = []; s.pieces = []; s.words = []; s.gone = []; s.nkeys = 0; s.num = None; s.lst = None; s.blobtext = None; s.tp = None
            s.sp = ctx.fresh("stack", 4096, 1 << 47); L.let(a, "sp", s.sp); g.d = d
            o = ctx.fresh("offset", 0, 1 << 40); a.chunk(L.addr("offset"), 8, "offset", kind="local").set(0, U64, o); s.at = g.o = o
            if g.out: bc = a.chunk(g.buf, g.cap, "buf", kind=g.bc.ch.kind); bc.seg(0, 1, g.cap, CH, name="buf"); ctx.assume(lt(o, g.cap))
            if a.branch(Or(eq(d, 0), eq(d, 514))): g.kd = None; return
            for nm in NAMES:
                if nm == NAMES[-1] or a.branch(eq(ctx.fresh("kindof", 0, 1), 1)): break
            g.kd = nm; J = g.j = ctx.fresh("value", 4096, 1 << 47); g.tup = s.tp = ctx.fresh("level", 4096, 1 << 47); cp = g.cp = ctx.fresh("counter", 4096, 1 << 47)
            jc = a.chunk(J, 32 if nm == "strn" else 16, "json", ro=True); jc.ch.cells[0] = (8, False, kind(a, nm)); ctx.assume(eq(jkind(a, J), kind(a, nm)))
            c = Chunk(s.tp, 16, "gc", False, "level", init=True); c.cells = {0: (8, False, cp), 8: (8, False, J)}; ctx.addchunk(c)
            cv = a.rec(cp, C, None, "counter", kind="local")
            g.tabs = cv.f("tabs"); ctx.assume(eq(g.tabs, sub(d, 1))); m = cv.f("more_siblings"); ctx.assume(And(le(0, m), le(m, 1))); g.more = a.branch(ne(m, 0)); g.mv = m
            g.nx = cv.f("next"); g.lst = cv.f("array"); g.obj = cv.f("object")
            g.more_items = False
            if nm in ("array", "object"):
                N = g.N = size(a, g.lst); ctx.assume(And(le(0, N), lt(N, SZ), le(g.nx, N), ge(g.lst, 4096)))
                if nm == "array": ctx.assume(eq(g.lst, part(a, J)))
                else: ctx.assume(eq(g.obj, part(a, J))); s.lst = g.lst
                g.first = a.branch(eq(g.nx, 0)); g.more_items = a.branch(lt(g.nx, N))
                lc = a.chunk(g.lst, 8, "list", ro=True); lc.ch.cells[0] = (8, False, items(a, g.lst))
                if g.more_items:
                    ctx.assume(And(ge(items(a, g.lst), 4096), le(items(a, g.lst), 1 << 47)))
                    ac = a.chunk(items(a, g.lst), mul(8, N), "items", ro=True); arr = ac.seg(0, 8, N, P, name="items"); g.item = arr.get(ctx, g.nx)
            return
        if s.sp is None: ctx.fail("the printer has its stack", kind="own")
        a.fact(eq(L.v("sp"), s.sp), "the stack"); off = a.chunk(L.addr("offset"), 8, "offset", kind="local").get(0, U64)
        if g.out: a.chunk(g.buf, g.cap, "buf")
        if L.entry:
            a.fact(eq(off, 0), "nothing is printed before the first round"); a.fact(ge(s.cap, 513), "room for the depth the parser accepts")
            if len(s.items) != 1 or s.pieces: ctx.fail("the value is the first level", kind="own")
            x = s.items[0]; a.fact(And(eq(x.j, g.j0), eq(x.more, 0), eq(x.tabs, 0), eq(x.st, g.st)), "the value is printed without indentation and siblings")
            return
        if g.kd is None: ctx.fail("rounds have a level", kind="own")
        want, child = pieces(a, g)
        # words and numbers are printed by hand
        got = list(s.pieces)
        self.match(a, g, s, want, got, off, child)
    def match(self, a, g, s, want, got, off, child):
        ctx = a.ctx; own_ = lambda m: ctx.fail(m, kind="own")
        calls = [p for p in want if p[0] not in ("raw", "num")]
        if [p[0] for p in calls] != [p[0] for p in got]: own_("the pieces printed for a %s" % g.kd)
        for x, y in zip(calls, got): a.fact(And(*[eq(p, q) for p, q in zip(x[1:], y[1:])]), "piece %s of a %s" % (x[0], g.kd))
        raw = [p[1] for p in want if p[0] == "raw"]
        if g.out: 
            if s.words != raw: own_("the word printed for a %s" % g.kd)
            if any(p[0] == "num" for p in want):
                if s.num is None: own_("the number is printed")
                a.fact(eq(s.num, part(a, g.j)), "the number printed is the value's")
        elif s.words or s.num is not None: own_("nothing is written without a buffer")
        w = 0
        for p in want: w = add(w, width(a, *p))
        a.fact(eq(off, simp(add(g.o, w))), "the offset advances by the width of what the %s prints" % g.kd)
        d = depth(s)
        if child is not None:
            if len(s.items) != 1 or s.gone or s.nkeys: own_("the next element is printed below its container")
            x = s.items[0]; a.fact(And(eq(x.j, child), eq(x.st, g.st), eq(x.tabs, add(g.tabs, 1)), Iff(ne(x.more, 0), lt(add(g.nx, 1), g.N))), "the next element, indented once more, with a comma after it exactly if more follow")
            cv = a.rec(g.cp, "counter", None, "counter", kind="local")
            cv.setf("next", simp(add(g.nx, 1)), "the next one is the turn after it"); cv.setf("tabs", g.tabs); cv.setf("more_siblings", g.mv); cv.setf("array", g.lst); cv.setf("object", g.obj)
            c = ctx.find(simp(g.tup)); c = c[0] if c else None
            if c is None: own_("the container stays a level")
            a.fact(And(eq(c.cells[0][2], g.cp), eq(c.cells[8][2], g.j)), "the container stays a level"); ctx.heap.remove(c)
        else:
            if s.items or len(s.gone) != 1 or not ctx.same(s.gone[0].base, g.tup): own_("a level that is printed ends")
            if (g.kd == "object") != (s.nkeys == 1): own_("the list of keys is released with the object")
            a.rec(g.cp, "counter", None, "counter", kind="local")
            a.fact(eq(d, sub(g.d, 1)), "one level less")
    def post(self, a, g, ret, st, buf, n, j, f):
        ctx = a.ctx; s = ps(a)
        a.fact(eq(ret, s.at), "the number of bytes is returned")
        if g.out:
            arr = a.chunk(g.buf, g.cap, "buf").seg(0, 1, g.cap, CH); a.fact(eq(arr.get(ctx, ret), 0), "the text is terminated")
        if s.sp is not None: ctx.fail("the stack is released", kind="own")

def v_keys(a, ret, m):
    l = a.ctx.fresh("keys", 4096, 1 << 47); ps(a).keys.append((m, l)); return l
def v_block(a, ret, st, n):
    s = ps(a); ctx = a.ctx; p = ctx.fresh("counter", 4096, 1 << 47); sz = a.tu.rec("counter").size
    ctx.prove(ge(n, sz), "room for a counter"); c = Chunk(p, sz, "gc", False, "counter"); ctx.addchunk(c); s.blocks.append((st, p, c)); return p
def v_zeroblock(a, ret, st, n):
    p = v_block(a, ret, st, n); a.ex.memset(p, 0, a.tu.rec("counter").size); return p
def v_tuple(a, ret, st, pol, x, y, *r):
    p = a.ctx.fresh("tuple", 4096, 1 << 47); ps(a).tuples.append((p, st, a.ex.load(pol, U32), a.ex.load(simp(add(pol, 4)), U32), x, y)); return p
def v_spush(a, ret, sp, x):
    ps(a).pushed.append((sp, x)); return 1

@register
class PrintPush(Contract):
    """a new level: the value, nothing of it printed yet, and for containers the elements or the keys in insertion order"""
    fn = "push"; props = ("C18",); nocall = True
    views = {k: PV(k, f) for k, f in dict(cee_map_insertion_ordered_keys=v_keys, cee_json_to_object=v_part, cee_json_to_array=v_part, cee_block_mk_nonzero=v_block, cee_block_mk=v_zeroblock,
                                          cee_tuple_mk_e=v_tuple, cee_stack_push=v_spush).items()}
    def pre(self, a, st, tabs, more, sp, j):
        ctx = a.ctx; a.ctx.ghosts["parse"] = s = PSt(); s.keys, s.blocks, s.tuples, s.pushed = [], [], [], []
        a.fact(ge(j, 4096), "a value"); t = ctx.fresh("kind", 0, 10)
        jc = a.chunk(j, 16, "json", ro=True); jc.ch.cells[0] = (8, False, t); jc.ch.cells[8] = (8, False, part(a, j))
        return G(t=t)
    def post(self, a, g, ret, st, tabs, more, sp, j):
        ctx = a.ctx; s = ps(a); own_ = lambda m: ctx.fail(m, kind="own")
        if len(s.blocks) != 1 or len(s.tuples) != 1 or len(s.pushed) != 1: own_("one level is pushed")
        bst, p, ch = s.blocks[0]; tp, tst, p0, p1, x, y = s.tuples[0]
        a.fact(And(eq(bst, st), eq(tst, st)), "the level belongs to the state"); a.fact(And(eq(s.pushed[0][0], sp), eq(s.pushed[0][1], tp)), "the level is pushed")
        a.fact(And(eq(x, p), eq(y, j)), "the level holds its counter and the value"); a.fact(And(eq(p0, DEL), eq(p1, NOOP)), "the level owns its counter and not the value")
        cv = a.rec(p, "counter", None, "counter")
        cv.setf("tabs", tabs, "the indentation"); a.fact(Iff(ne(cv.f("more_siblings"), 0), ne(more, 0)), "whether more follow"); cv.setf("next", 0, "nothing is printed yet")
        if a.branch(eq(g.t, kind(a, "array"))): cv.setf("array", part(a, j), "an array's elements")
        elif a.branch(eq(g.t, kind(a, "object"))):
            if len(s.keys) != 1: own_("an object's keys are listed once")
            a.fact(eq(s.keys[0][0], part(a, j)), "the keys are this object's"); cv.setf("array", s.keys[0][1], "an object's keys in insertion order"); cv.setf("object", part(a, j), "the object itself")
        elif s.keys: own_("no keys are listed for other values")
        a.fact(eq(ret, p), "the counter is returned")
