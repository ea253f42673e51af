"""cee_json_parsex (C17): the push-down automaton against a reference recogniser, for every sequence of tokens.

The reference is a table over phases of the grammar (root value, key, colon, value, more, elem, next, done, error) and the
containers open so far; its step for the token read is compared with what one round of the loop did: the phase, the stack, and
the values built (which container received which value under which key; what a value denotes is the token's kind and payload).
Invariant: the tuple at level j of the stack holds the container open there and the phase to go on with when it closes, which is
the one of the container below.  Tokens, constructors, map and list are seen as calls: their contracts are C16, C19, C05, C01."""
from .base import *
from .hash import zf

DEPTH = 512
PH = dict(root="st_object_or_array_or_value_expected", key="st_object_key_or_close_expected", colon="st_object_colon_expected", value="st_object_value_expected",
          more="st_object_close_or_comma_expected", elem="st_array_value_or_close_expected", next="st_array_close_or_comma_expected", error="st_error", done="st_done")
PHASES = list(PH)
SCALARS = ("str", "true", "false", "null", "i64", "u64", "double")
OBJ, ARR = 1, 2
def kindof(a, j): return zf(a, "JKIND", j)
def part(a, j): return zf(a, "PART", j)

def step(ph, tok, below):
    """reference: (next phase, what is done); below: kind of the container around the present one (0: none)"""
    close = {0: "done", OBJ: "more", ARR: "next"}[below]
    if ph == "root":
        if tok in SCALARS: return "done", "root"
        if tok in "[{": return "elem" if tok == "[" else "key", "root"
    elif ph == "key":
        if tok == "}": return close, "close"
        if tok == "str": return "colon", "key"
    elif ph == "colon":
        if tok == ":": return "value", None
    elif ph == "value":
        if tok in SCALARS: return "more", "member"
        if tok in "[{": return "elem" if tok == "[" else "key", "member"
    elif ph == "more":
        if tok == ",": return "key", None
        if tok == "}": return close, "close"
    elif ph == "elem":
        if tok == "]": return close, "close"
        if tok in SCALARS: return "next", "element"
        if tok in "[{": return "elem" if tok == "[" else "key", "element"
    elif ph == "next":
        if tok == "]": return close, "close"
        if tok == ",": return "elem", None
    return "error", None

class PV(Contract):
    """a callee as the parser sees it"""
    trusted = True; props = ("C17",); nocall = True
    def __init__(self, fn, f): self.fn, self.f = fn, f; self.reset()
    @property
    def name(self): return "call:" + self.fn
    def post(self, a, g, ret, *args): return self.f(a, ret, *args)

def st_of(a): return a.ctx.ghosts["parse"]
def tok(a, ret, st, t):
    ctx = a.ctx; s = st_of(a); en = a.tu.enumn; o = lambda f: a.tu.off("tokenizer", f)
    c = ctx.fresh("token", 0, 300)
    line = ctx.fresh("line", 0, 1 << 30); a.ex.store(simp(add(t, o("line"))), I32, line); s.line = line
    names = ["[", "]", "{", "}", ":", ",", "str", "number", "true", "false", "null", "err", "eof"]
    for nm in names:
        code = ord(nm) if len(nm) == 1 else en["tock_" + nm]
        if nm == names[-1] or a.branch(eq(c, code)): break
    ctx.assume(eq(c, code)); s.tok = nm; s.payload = None
    if nm == "str":
        s.payload = p = ctx.fresh("text", 4096, 1 << 47); a.ex.store(simp(add(t, o("str"))), P, p); s.used = 0
    if nm == "number":
        for k, e, ty in (("i64", "NUMBER_IS_I64", I64), ("u64", "NUMBER_IS_U64", U64), ("double", "NUMBER_IS_DOUBLE", F64)):
            kk = en[e]
            if k == "double" or a.branch(eq(ctx.fresh("numkind", 0, 1), 1)): break
        a.ex.store(simp(add(t, o("type"))), U32, kk)
        s.payload = v = a.ex.freshval(ty, "number"); a.ex.store(simp(add(t, o("number"))), ty, v); s.tok = k
    s.toks += 1
    return code
def make(kind):
    def f(a, ret, *args):
        ctx = a.ctx; s = st_of(a); p = ctx.fresh(kind, 4096, 1 << 47)
        pay = args[1] if kind in ("str", "i64", "u64", "double") else None
        if kind in ("[", "{"): ctx.assume(eq(kindof(a, p), ARR if kind == "[" else OBJ))
        s.made.append((p, kind, pay)); return p
    return f
def narrow(kind):
    def f(a, ret, j):
        ctx = a.ctx; ctx.prove(eq(kindof(a, j), kind), "values are added to a container of the right kind")
        r = part(a, j); ctx.assume(And(ge(r, 4096), le(r, 1 << 47))); return r
    return f
def addto(a, ret, c, *kv):
    s = st_of(a); s.added.append((c, kv[0] if len(kv) == 2 else None, kv[-1])); return None
def tuplemk(a, ret, st, pol, *x):
    ctx = a.ctx; p = ctx.fresh("tuple", 4096, 1 << 47)
    c = Chunk(p, 16, "gc", False, "tuple", init=True); c.cells = {0: (8, False, x[0]), 8: (8, False, x[1])}; ctx.addchunk(c); return p
def smk(a, ret, st, pol, n):
    s = st_of(a); p = a.ctx.fresh("stack", 4096, 1 << 47); s.sp = p; s.cap = n; s.d = 0; s.items = []; return p
def own(a, sp):
    s = st_of(a)
    if s.sp is None or not a.ctx.same(sp, s.sp): a.ctx.fail("the parser's stack", kind="own")
    return s
def depth(s): return simp(add(s.d, len(s.items)))
def push(a, ret, sp, x):
    s = own(a, sp); a.ctx.prove(lt(depth(s), s.cap), "nothing is pushed on a full stack"); s.items.append(x); return None
def pop(a, ret, sp):
    s = own(a, sp); a.ctx.prove(ge(depth(s), 1), "an empty stack is not popped")
    if s.items: return s.items.pop()
    s.d = simp(sub(s.d, 1)); t = s.tp; s.tp = None
    if t is None: a.ctx.fail("one level is closed at a time", kind="own")
    return t
def top(a, ret, sp, k):
    s = own(a, sp); a.ctx.prove(And(eq(k, 0), ge(depth(s), 1)), "the top of the stack is read only if there is one")
    r = s.items[-1] if s.items else s.tp
    if r is None: a.ctx.fail("one level is closed at a time", kind="own")
    return r
def empty(a, ret, sp): s = own(a, sp); return If(eq(depth(s), 0), 1, 0)
def full(a, ret, sp): s = own(a, sp); return If(ge(depth(s), s.cap), 1, 0)
def delete(a, ret, p):
    ctx = a.ctx; s = st_of(a)
    if s.sp is not None and ctx.same(p, s.sp): s.sp = None; return None
    r = ctx.find(simp(p)) or ctx.find_sem(p)
    if r is None or r[0].kind != "gc" or r[0].ro: ctx.fail("what is deleted is a level taken from the stack", kind="own")
    ctx.heap.remove(r[0]); return None
VIEWS = dict(cee_json_next_token=tok, cee_json_str_mk=make("str"), cee_json_true=make("true"), cee_json_false=make("false"), cee_json_null=make("null"),
             cee_json_i64_mk=make("i64"), cee_json_u64_mk=make("u64"), cee_json_double_mk=make("double"), cee_json_array_mk=make("["), cee_json_object_mk=make("{"),
             cee_json_to_object=narrow(OBJ), cee_json_to_array=narrow(ARR), cee_map_add=addto, cee_list_append=addto, cee_tuple_mk_e=tuplemk,
             cee_stack_mk_e=smk, cee_stack_push=push, cee_stack_pop=pop, cee_stack_top=top, cee_stack_empty=empty, cee_stack_full=full, cee_del=delete)

@register
class Parse(Contract):
    fn = "cee_json_parsex"; props = ("C17",); boundable = False; nocall = True; cost = 50
    views = {k: PV(k, f) for k, f in VIEWS.items()}
    loops = {("cee_json_parsex", 0): "round"}
    def pre(self, a, st, buf, len_, out, force_eof, line):
        ctx = a.ctx
        a.fact(And(ge(buf, 4096), le(len_, 1 << 31)), "a text")
        a.chunk(out, 8, "out", kind="caller"); a.chunk(line, 4, "error_at_line", kind="caller")
        ctx.ghosts["parse"] = G(sp=None, made=[], added=[], toks=0, tok=None, line=None, tp=None)
        return G(RS=Base(ctx, "GOON", 8, False, False), RJ=Base(ctx, "OPEN", 8, False, False), ph=None)
    def code(self, a, ph): return a.tu.enumn[PH[ph]]
    def round(self, a, L):
        ctx = a.ctx; g = L.g; s = st_of(a); C = lambda p: self.code(a, p)
        tockb = L.addr("tock"); osz = a.tu.rec("tokenizer").size
        if a.produce:
            for ph in PHASES:
                if ph == PHASES[-1] or a.branch(eq(ctx.fresh("phase", 0, 1), 1)): break
            g.ph = ph; d = ctx.fresh("depth", 0, DEPTH)
            if ph == "done": ctx.assume(eq(d, 0))
            elif ph == "root": ctx.assume(eq(d, 1))
            elif ph == "error": pass
            else: ctx.assume(ge(d, 1))
            RS, RJ = g.RS, g.RJ = Base(ctx, "GOON", 8, False, False), Base(ctx, "OPEN", 8, False, False)
            g.key = ctx.fresh("key", 0, 1 << 47)
            s.sp = ctx.fresh("stack", 4096, 1 << 47); s.cap = DEPTH; s.d = d; s.items = []; s.made = []; s.added = []; s.toks = 0; s.tok = None; s.tp = None
            L.let(a, "sp", s.sp); L.let(a, "state", C(ph)); L.let(a, "key", g.key)
            tc = a.chunk(tockb, osz, "tock", kind="local"); s.line = ctx.fresh("line", 0, 1 << 30); tc.set(a.tu.off("tokenizer", "line"), I32, s.line)
            if ph not in ("done", "error"):
                top = simp(sub(d, 1)); s.tp = ctx.fresh("level", 4096, 1 << 47)
                c = Chunk(s.tp, 16, "gc", False, "level", init=True); c.cells = {0: (8, False, RS.get(ctx, top)), 8: (8, False, RJ.get(ctx, top))}; ctx.addchunk(c)
                g.top = top
            # the level closed last, if any
            r = ctx.fresh("result", 0, 1 << 47); L.let(a, "result", r); g.value = ctx.fresh("value", 0, 1 << 47)
            if ph == "done": ctx.assume(ge(r, 4096))
            if ph == "done" or a.branch(ne(r, 0)):
                ctx.assume(ge(r, 4096)); c = Chunk(r, 16, "gc", False, "closed", init=True)
                c.cells = {0: (8, False, ctx.fresh("goon", 0, 1 << 47)), 8: (8, False, g.value if ph == "done" else ctx.fresh("closed", 0, 1 << 47))}; ctx.addchunk(c)
            g.d = d
            if ph in ("root", "key", "colon", "value", "more", "elem", "next"):
                self.levels(a, g, RS, RJ, d)
                j = RJ.get(ctx, g.top)
                if ph == "root": ctx.assume(eq(j, 0))
                else:
                    ctx.assume(eq(kindof(a, j), ARR if ph in ("elem", "next") else OBJ)); ctx.assume(And(ge(j, 4096), le(j, 1 << 47)))
            return
        a.chunk(tockb, osz, "tock", kind="local")
        if s.sp is None: ctx.fail("the parser has its stack", kind="own")
        a.fact(eq(L.v("sp"), s.sp), "the stack"); d = depth(s)
        if L.entry:
            ph = "root"; a.fact(eq(d, 1), "one level at the start"); a.fact(eq(s.cap, DEPTH), "room for the levels"); RS, RJ = g.RS, g.RJ
            if s.toks: ctx.fail("nothing is read before the start", kind="own")
        else:
            below = 0
            if g.ph in ("key", "more", "elem", "next") and not a.branch(eq(g.d, 1)):
                below = OBJ if a.branch(eq(kindof(a, g.RJ.get(ctx, simp(sub(g.d, 2)))), OBJ)) else ARR
            if s.toks != 1: ctx.fail("one token per round", kind="own")
            ph, what = step(g.ph, s.tok, below); RS, RJ = g.RS, g.RJ
            self.built(a, L, g, s, what, ph)
            a.fact(eq(d, {"close": sub(g.d, 1), "root": 0 if ph == "done" else 1}.get(what, add(g.d, 1) if what in ("member", "element") and s.tok in ("[", "{") else g.d)), "one level per open container")
        a.fact(eq(L.v("state"), C(ph)), "the state after the token is the grammar's")
        if ph == "done":
            r = L.v("result"); a.fact(ge(r, 4096), "the value's level is at hand")
            c = ctx.find(simp(r)) or ctx.find_sem(r)
            if c is None: ctx.fail("the value's level is at hand", kind="own")
            v = c[0].cells[8][2]
            if g.ph == "root": a.fact(eq(v, s.made[0][0]), "the value parsed")
            else: a.fact(eq(v, g.RJ.get(ctx, 0)), "the value parsed is the container opened first")
        r = L.v("result")
        if not ctx.valid(eq(r, 0)):
            c = ctx.find(simp(r)) or ctx.find_sem(r)
            if c is None or c[0].kind != "gc": ctx.fail("what was taken from the stack is owned", kind="own")
            ctx.heap.remove(c[0])
        if ph not in ("done", "error"):
            # the levels now
            if s.tp is not None:
                c = ctx.find(simp(s.tp))[0]
                if not L.entry: RS, RJ = RS.store(g.top, c.cells[0][2]), RJ.store(g.top, c.cells[8][2])
                ctx.heap.remove(c)
            for n, x in enumerate(s.items):
                c = (ctx.find(simp(x)) or ctx.find_sem(x))[0]; i = simp(add(s.d, n)); RS, RJ = RS.store(i, c.cells[0][2]), RJ.store(i, c.cells[8][2])
                if c in ctx.heap: ctx.heap.remove(c)
            self.levels(a, g, RS, RJ, d)
            j = RJ.get(ctx, simp(sub(d, 1)))
            if ph == "root": a.fact(eq(j, 0), "no value yet")
            else: a.fact(eq(kindof(a, j), ARR if ph in ("elem", "next") else OBJ), "the open container is of the kind the state says")
            if ph in ("colon", "value"): a.fact(eq(L.v("key"), g.newkey if ph == "colon" else g.key), "the key is kept for its value")
    def levels(self, a, g, RS, RJ, d):
        """the phase a level goes on with: done at the bottom, else that of the container below"""
        ctx = a.ctx; C = lambda p: self.code(a, p)
        def f(j):
            j = simp(j); k = kindof(a, RJ.get(ctx, simp(sub(j, 1))))
            return And(Implies(And(eq(j, 0), lt(j, d)), eq(RS.get(ctx, j), C("done"))),
                       Implies(And(le(1, j), lt(j, d)), And(Or(eq(k, OBJ), eq(k, ARR)), eq(RS.get(ctx, j), If(eq(k, OBJ), C("more"), C("next"))), ge(RJ.get(ctx, simp(sub(j, 1))), 4096))))
        if a.produce: ctx.addfact([RS], f)
        else:
            k = ctx.fresh("level", 0, DEPTH); f(0); ctx.prove(f(k), "a level goes on in the state of the container below")
    def built(self, a, L, g, s, what, ph):
        """the values built for the token"""
        ctx = a.ctx; t = s.tok; cont = g.RJ.get(ctx, g.top) if hasattr(g, "top") else 0
        want = t if what in ("member", "element", "root") else None
        n = 1 if want else 0
        if len(s.made) != n: ctx.fail("a value is made for a value token and for nothing else", kind="own")
        if n:
            p, k, pay = s.made[0]
            if k != want: ctx.fail("the value is of the token's kind")
            if pay is not None: a.fact(eq(pay, s.payload), "the value is the token's")
        if what in ("member", "element"):
            if len(s.added) != 1: ctx.fail("a value goes into its container once", kind="own")
            c, key, v = s.added[0]
            a.fact(eq(c, part(a, cont)), "a value goes into the innermost open container"); a.fact(eq(v, s.made[0][0]), "the value made is the one added")
            if what == "member":
                if key is None: ctx.fail("a member has a key")
                a.fact(eq(key, g.key), "a member is under the key read before it")
            elif key is not None: ctx.fail("an element has no key")
            if t in ("[", "{"):
                x = s.items[-1] if s.items else None
                if x is None: ctx.fail("a new container is a new level", kind="own")
                c = (ctx.find(simp(x)) or ctx.find_sem(x))[0]
                a.fact(eq(c.cells[8][2], s.made[0][0]), "the new container is the one open now")
        elif s.added: ctx.fail("nothing is added for this token", kind="own")
        if what == "key": g.newkey = s.payload
        if what == "root" and t in ("[", "{"):
            a.fact(eq(ctx.find(simp(s.tp))[0].cells[8][2], s.made[0][0]), "the container opened is the root")
    def post(self, a, g, ret, st, buf, len_, out, force_eof, line):
        ctx = a.ctx; s = st_of(a)
        ov = a.chunk(out, 8, "out").get(0, P); lv = a.chunk(line, 4, "error_at_line").get(0, I32)
        good = g.ph == "done"
        if good and not a.branch(eq(force_eof, 0)):
            if s.toks != 1: ctx.fail("with force_eof, one more token is read after the value", kind="own")
            good = s.tok == "eof"
        elif s.toks: ctx.fail("nothing is read after the end", kind="own")
        if good:
            a.fact(eq(ret, 0), "a text of the grammar is accepted"); a.fact(eq(ov, g.value), "the value is handed out")
        else:
            a.fact(eq(ret, 22), "a text outside the grammar (or too deep) is refused"); a.fact(eq(ov, 0), "no value then"); a.fact(eq(lv, s.line), "the line of the error")
        if s.sp is not None: ctx.fail("the stack is released", kind="own")
