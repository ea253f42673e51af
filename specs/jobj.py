"""cee-json/value.c: updates of JSON objects and arrays (C20).
Array operations are verified against the list's contracts.  Object operations are verified as exactly the
map operation they stand for (which map, a fresh copy of the key's text, which value): what that operation then does
to the map is its own contract (specs/map.py).  The calls are seen through recorded-call views."""
from .base import *
from .str import *
from .list import list_own, list_is, new_list
from .json import jval, kind, KIND, JsonMk
from .map import grown

def anyjson(a, c, t=None):
    """a JSON value given back by a constructor"""
    ctx = a.ctx
    ch = Chunk(c.ret, 16, "heap", False, "json", init=True); ch.ro = True; ch.shared = True
    ctx.addchunk(ch)
    k = t if t is not None else ctx.fresh("kind", 0, 10)
    ch.cells[0] = (8, False, kind(a, k) if isinstance(k, str) else k)
    ctx.assume(ne(c.ret, 0))
def ctor(k):
    def make(a, c, *r):
        anyjson(a, c, k)
        if k in ("object", "array", "string"): a.ctx.assume(ne(a.ex.load(simp(add(c.ret, 8)), U64), 0))
    return make
def strmk(a, c, st, fmt, v):
    ctx = a.ctx; ctx.assume(ne(c.ret, 0))
    c.F, c.L = fmt_of(a, fmt, v)
    if isinstance(v, VaList):
        if v.state != "ready": ctx.fail("the argument list is %s" % v.state, kind="ub")
        v.state = "indeterminate after use"
def stateof(a, c, x):
    """the state of a block is the same every time"""
    tab = a.ctx.ghosts.setdefault("stateof", {}); k = str(simp(x))
    if k not in tab: tab[k] = c.ret; a.ctx.assume(ne(c.ret, 0))
    return tab[k]
CTORS = dict(cee_json_str_mk="string", cee_json_double_mk="double", cee_json_i64_mk="i64", cee_json_u64_mk="u64", cee_json_bool="boolean",
             cee_json_null="null", cee_json_true="boolean", cee_json_false="boolean", cee_json_array_mk="array", cee_json_object_mk="object")
VIEWS = {f: Ev(f, make=ctor(k)) for f, k in CTORS.items()}
for f in ("cee_map_add", "cee_map_add_e", "cee_map_remove", "cee_map_rename", "cee_map_iterate", "cee_map_merge", "cee_map_size", "cee_del", "cee_del_ref", "cee_del_e", "cee_incr_indegree", "cee_decr_indegree",
          "cee_list_append", "cee_list_insert", "cee_list_remove", "cee_list_iterate", "cee_list_merge", "cee_map_find"): VIEWS[f] = Ev(f)
VIEWS["cee_get_state"] = Ev("cee_get_state", make=stateof)
VIEWS["cee_str_mk"] = Ev("cee_str_mk", make=strmk); VIEWS["cee_str_mkv"] = Ev("cee_str_mkv", make=strmk)
PURE = ("cee_get_state", "cee_map_find", "cee_map_size", "cee_str_mk", "cee_str_mkv", "cee_json_select") + tuple(CTORS)

class JObj(Contract):
    props = ("C20",); nocall = True; views = VIEWS; boundable = True
    def only(self, a, *allowed):
        for c in calls(a):
            if c.fn not in PURE and c not in allowed: a.ctx.fail("nothing else is changed (calls %s)" % c.fn, kind="own")
    def the(self, a, what, *fns):
        cs = calls(a, *fns)
        if len(cs) != 1: a.ctx.fail("%s: exactly one operation (found %d)" % (what, len(cs)), kind="own")
        return cs[0]
    def none(self, a): self.only(a)
    def copy(self, a, p, key, what="a fresh copy of the key"):
        """p is a string made here with the text of key"""
        ctx = a.ctx
        for c in calls(a, "cee_str_mk", "cee_str_mkv"):
            if c.ret is p or ctx.same(c.ret, p): return self.text(a, c, key, what)
        ctx.fail(what, kind="own")
    def text(self, a, c, key, what):
        arr, n = key
        a.fact(eq(c.L, n), what + " (length)")
        a.forall([c.F, arr], lambda q: Implies(And(le(0, q), lt(q, n)), eq(c.F.get(a.ctx, q), arr.get(a.ctx, q))), what)
    def made(self, a, v, fn):
        ctx = a.ctx
        for c in calls(a, fn):
            if c.ret is v or ctx.same(c.ret, v): return c
        ctx.fail("the value is made by %s" % fn, kind="own")
    def added(self, a, g, key, what="the key is bound"):
        """the one map_add: (map, key, value)"""
        c = self.the(a, what, "cee_map_add", "cee_map_add_e"); self.only(a, c)
        a.fact(eq(c.args[0], g.p), what + ": in the object's own map")
        if c.fn == "cee_map_add_e": a.fact(eq(c.args[4], 0), what + ": the new value replaces the old one")
        self.copy(a, c.args[1], key)
        return c.args[2]
    def obj(self, a, j, key=None, kname="key"):
        g = G(z=a.branch(eq(j, 0)))
        if g.z: return g
        v = jval(a, j); g.t, g.p, g.cv = v.t, v.p, v.cv
        g.isobj = a.branch(eq(g.t, kind(a, "object")))
        if g.isobj: a.ctx.assume(ne(g.p, 0))
        if key is not None: g.key = text_in(a, key, kname, 1 << 30)
        return g

class ObjSet(JObj):
    """NULL: nothing; no object: trap; otherwise the key's copy is bound to the value"""
    def pre(self, a, j, key, *r):
        g = self.obj(a, j, key)
        self.more(a, g, *r)
        return g
    def more(self, a, g, *r): pass
    def trap(self, a, g, *r): return False if g.z else not g.isobj
    def post(self, a, g, ret, j, key, *r):
        if g.z: self.none(a); return
        v = self.added(a, g, g.key); self.value(a, g, v, *r)
def oset(name, mk, val=None):
    def value(self, a, g, v, *r):
        c = self.made(a, v, mk)
        if val is not None: val(self, a, g, c, *r)
    return register(type("JsonObjectSet" + name, (ObjSet,), dict(fn="cee_json_object_set_" + name, value=value)))
last = lambda self, a, g, c, x: a.fact(eq(c.args[-1], x), "the value given")
oset("null", "cee_json_null"); oset("double", "cee_json_double_mk", last); oset("i64", "cee_json_i64_mk", last); oset("u64", "cee_json_u64_mk", last)
@register
class JsonObjectSetBool(ObjSet):
    fn = "cee_json_object_set_bool"
    def value(self, a, g, v, b):
        cs = [c for c in calls(a, "cee_json_bool", "cee_json_true", "cee_json_false") if c.ret is v or a.ctx.same(c.ret, v)]
        if not cs: a.ctx.fail("the value is a boolean", kind="own")
        c = cs[0]
        if c.fn == "cee_json_bool": a.fact(eq(c.args[0], b), "the value given")
        else: a.fact(Iff(c.fn == "cee_json_true", ne(b, 0)), "the value given")
@register
class JsonObjectSetStr(ObjSet):
    fn = "cee_json_object_set_str"
    def more(self, a, g, s):
        if not g.z: g.str = text_in(a, s, "str", 1 << 30)
    def value(self, a, g, v, s):
        c = self.made(a, v, "cee_json_str_mk"); self.copy(a, c.args[1], g.str, "a copy of the text given")
@register
class JsonObjectSetStrf(ObjSet):
    fn = "cee_json_object_set_strf"
    def more(self, a, g, fmt, v):
        if not g.z: g.str = fmt_of(a, fmt, v)
    def value(self, a, g, v, fmt, va):
        c = self.made(a, v, "cee_json_str_mk"); self.copy(a, c.args[1], g.str, "the formatted text")
@register
class JsonObjectSet(ObjSet):
    fn = "cee_json_object_set"
    def more(self, a, g, v):
        if g.z: return
        if a.produce:
            g.vt = a.ctx.fresh("vkind", 0, (1 << 32) - 1)
            cv = a.chunk(v, 16, "value", ro=True); cv.ch.cells[0] = (8, False, g.vt)
    def trap(self, a, g, *r): return False if g.z else (True if not g.isobj else gt(g.vt, KIND["strn"]))
    def value(self, a, g, v, x): a.fact(eq(v, x), "the value given")
@register
class JsonObjectKv(JObj):
    fn = "cee_json_object_kv"
    def pre(self, a, st, key, v):
        g = G(key=text_in(a, key, "key", 1 << 30))
        if a.produce:
            g.vt = a.ctx.fresh("vkind", 0, (1 << 32) - 1)
            cv = a.chunk(v, 16, "value", ro=True); cv.ch.cells[0] = (8, False, g.vt)
        return g
    def trap(self, a, g, *r): return gt(g.vt, KIND["strn"])
    def post(self, a, g, ret, st, key, v):
        c = self.made(a, ret, "cee_json_object_mk"); a.fact(eq(c.args[0], st), "in the state given")
        g.p = a.ex.load(simp(add(ret, 8)), U64)
        x = self.added(a, g, g.key); a.fact(eq(x, v), "the value given")

@register
class JsonObjectGet(JObj):
    fn = "cee_json_object_get"
    def pre(self, a, j, key):
        v = jval(a, j); return G(t=v.t, p=v.p, isobj=a.branch(eq(v.t, kind(a, "object"))), nz=a.ctx.assume(ne(v.p, 0)))
    def trap(self, a, g, *r): return not g.isobj
    def post(self, a, g, ret, j, key):
        c = self.the(a, "get", "cee_map_find"); self.only(a)
        a.fact(And(eq(c.args[0], g.p), eq(c.args[1], key), eq(ret, c.ret)), "the value the object's map has for the key")
@register
class JsonObjectRemove(JsonObjectGet):
    fn = "cee_json_object_remove"
    def post(self, a, g, ret, j, key):
        c = self.the(a, "remove", "cee_map_remove"); self.only(a, c)
        a.fact(And(eq(c.args[0], g.p), eq(c.args[1], key)), "that key is removed from the object's map")
@register
class JsonObjectRename(JObj):
    fn = "cee_json_object_rename"
    def pre(self, a, j, old, new):
        v = jval(a, j); g = G(t=v.t, p=v.p, isobj=a.branch(eq(v.t, kind(a, "object"))))
        if g.isobj: a.ctx.assume(ne(g.p, 0))
        g.old = text_in(a, old, "old", 1 << 30); g.new = text_in(a, new, "new", 1 << 30)
        return g
    def post(self, a, g, ret, j, old, new):
        if not g.isobj: a.fact(eq(ret, 0), "false for anything but an object"); self.none(a); return
        c = self.the(a, "rename", "cee_map_rename"); d = self.the(a, "rename", "cee_del"); self.only(a, c, d)
        a.fact(And(eq(c.args[0], g.p), eq(Ne0(ret), Ne0(c.ret))), "the map's answer")
        self.copy(a, c.args[1], g.old, "a copy of the old key"); self.copy(a, c.args[2], g.new, "a copy of the new key")
        a.fact(eq(d.args[0], c.args[1]), "only the copy of the old key is deleted")
        cs = calls(a); 
        if cs.index(d) < cs.index(c): a.ctx.fail("the copy of the old key is deleted after its use", kind="own")
def Ne0(x): return If(ne(x, 0), 1, 0)
@register
class JsonObjectIterate(JObj):
    fn = "cee_json_object_iterate"; op = "cee_map_iterate"; k = "object"
    def pre(self, a, j, ctx_, f):
        v = jval(a, j); g = G(p=v.p, ok=a.branch(eq(v.t, kind(a, self.k))))
        a.ctx.assume(ne(v.p, 0)); return g
    def trap(self, a, g, *r): return not g.ok
    def post(self, a, g, ret, j, cx, f):
        c = self.the(a, "iterate", self.op); self.only(a, c)
        a.fact(And(eq(c.args[0], g.p), eq(c.args[1], cx), eq(c.args[2], f), eq(ret, c.ret)), "every entry is handed to the function until it returns non-zero")
@register
class JsonArrayIterate(JsonObjectIterate):
    fn = "cee_json_array_iterate"; op = "cee_list_iterate"; k = "array"

@register
class JsonObjectAppend(JObj):
    """absent: set; an array: append (concatenate an array) to it; anything else: the array of the old value, likewise"""
    fn = "cee_json_object_append"
    views = dict(VIEWS, cee_json_array_concat=Ev("cee_json_array_concat"), cee_json_array_append=Ev("cee_json_array_append"), cee_json_object_set=Ev("cee_json_object_set"))
    def pre(self, a, j, key, v):
        ctx = a.ctx
        if a.branch(Or(eq(j, 0), eq(v, 0))): return G(z=True)
        x = jval(a, j); g = G(z=False, p=x.p, isobj=a.branch(eq(x.t, kind(a, "object"))))
        ctx.assume(ne(g.p, 0))
        w = jval(a, v); g.va = a.branch(eq(w.t, kind(a, "array")))
        ctx.assume(Implies(g.va, ne(w.p, 0)))
        return g
    def trap(self, a, g, *r): return False if g.z else not g.isobj
    def post(self, a, g, ret, j, key, v):
        ctx = a.ctx
        if g.z: self.none(a); return
        f = calls(a, "cee_map_find")
        if not f: ctx.fail("the old value is looked up", kind="own")
        for c in f: a.fact(And(eq(c.args[0], g.p), eq(c.args[1], key)), "the old value is looked up")
        old = f[0].ret
        sets = calls(a, "cee_json_object_set"); ap = calls(a, "cee_json_array_append"); cc = calls(a, "cee_json_array_concat")
        self.only(a, *(sets + ap + cc))
        seq = [(c.fn[9:], c.args) for c in ap + cc + sets]
        if a.branch(eq(old, 0)):
            if len(seq) != 1 or not sets: ctx.fail("an absent key is set", kind="own")
            a.fact(And(eq(sets[0].args[0], j), eq(sets[0].args[1], key), eq(sets[0].args[2], v)), "an absent key is set to the value"); return
        seq = [c for c in calls(a) if c in sets or c in ap or c in cc]
        op = "cee_json_array_concat" if g.va else "cee_json_array_append"
        if a.branch(eq(a.ex.load(old, U64), kind(a, "array"))):
            if len(seq) != 1 or seq[0].fn != op: ctx.fail("the value is appended (an array's elements are)", kind="own")
            a.fact(And(eq(seq[0].args[0], old), eq(seq[0].args[1], v)), "appended to the array there"); return
        if [c.fn for c in seq] != ["cee_json_array_append", op, "cee_json_object_set"]: ctx.fail("the old value becomes the first element of a new array that replaces it", kind="own")
        n = self.made(a, seq[2].args[2], "cee_json_array_mk").ret
        a.fact(And(eq(seq[0].args[0], n), eq(seq[0].args[1], old)), "the old value is the first element")
        a.fact(And(eq(seq[1].args[0], n), eq(seq[1].args[1], v)), "then the value")
        a.fact(And(eq(seq[2].args[0], j), eq(seq[2].args[1], key)), "the array takes the old value's place")
def found(a, c, m, key):
    """NULL or a JSON value"""
    if a.branch(ne(c.ret, 0)):
        anyjson(a, c); ch = a.ctx.find(simp(c.ret))[0]; a.ctx.assume(Implies(eq(ch.cells[0][2], kind(a, "array")), ne(a.ex.load(simp(add(c.ret, 8)), U64), 0)))
JsonObjectAppend.views["cee_map_find"] = Ev("cee_map_find", make=found)

# ---------------------------------------------------------------------------------------------- merge
class Merge(JObj):
    views = dict(VIEWS, cee_json_merge=Ev("cee_json_merge"))
@register
class JsonMergeValue(Merge):
    """merged in place when both are containers of one kind, replaced by the source's otherwise"""
    fn = "merge_json_value"
    def pre(self, a, cx, old, new):
        if a.verify: jval(a, old); jval(a, new)
        return G()
    def post(self, a, g, ret, cx, old, new):
        c = self.the(a, "merge", "cee_json_merge"); self.only(a, c)
        a.fact(And(eq(c.args[0], old), eq(c.args[1], new)), "the old value is merged with the new one")
        a.fact(eq(ret, If(ne(c.ret, 0), old, new)), "the old value if it could be merged, the new one otherwise")
@register
class JsonMergeOrReturn(Merge):
    fn = "cee_json_merge_or_return"
    def pre(self, a, dp, src):
        g = G(z=a.branch(Or(eq(dp, 0), eq(src, 0))))
        if not g.z: g.d = a.chunk(dp, 8, "dest").get(0, U64)
        return g
    def post(self, a, g, ret, dp, src):
        if g.z: a.fact(eq(ret, 0), "nothing to merge"); self.none(a); return
        cv = a.chunk(dp, 8, "dest")
        if a.branch(eq(g.d, 0)): a.fact(eq(ret, 1)); cv.set(0, U64, src, "the source itself"); self.none(a); return
        cv.set(0, U64, g.d, "the destination is kept")
        c = self.the(a, "merge", "cee_json_merge"); self.only(a, c)
        a.fact(And(eq(c.args[0], g.d), eq(c.args[1], src), eq(ret, c.ret)), "the source is merged into the destination")
@register
class JsonMerge(JObj):
    fn = "cee_json_merge"
    def pre(self, a, d, s):
        g = G(z=a.branch(Or(eq(d, 0), eq(s, 0))))
        if g.z: return g
        g.d, g.s = jval(a, d), jval(a, s)
        return g
    def post(self, a, g, ret, d, s):
        ctx = a.ctx
        if g.z: a.fact(eq(ret, 0), "NULL is not merged"); self.none(a); return
        for k, op in (("object", "cee_map_merge"), ("array", "cee_list_merge")):
            if a.branch(And(eq(g.d.t, kind(a, k)), eq(g.s.t, kind(a, k)))):
                c = self.the(a, "merge", op); self.only(a, c)
                a.fact(And(eq(c.args[0], g.d.p), eq(c.args[1], g.s.p)), "the source's members go into the destination")
                if k == "object": a.fact(eq(c.args[3], faddr(a, "merge_json_value")), "members present in both are merged recursively")
                a.fact(eq(ret, 1), "true for two containers of one kind"); return
        a.fact(eq(ret, 0), "false otherwise"); self.none(a)

# ---------------------------------------------------------------------------------------------- has
class Has(JObj):
    views = dict(VIEWS, cee_json_has=Ev("cee_json_has"))
    fnd = "found"
    def ctxof(self, a, cx):
        cv = a.rec(cx, "json_has_ctx"); g = G(key=cv.f("key")); g.text = text_in(a, g.key, "key", 1 << 30); return g
    def after(self, a, g, ret, cx, key, val):
        """found in val"""
        c = self.the(a, "has", "cee_json_has"); self.only(a, c)
        a.fact(And(eq(c.args[0], val), eq(c.args[1], g.key)), "the value is searched for the key")
        cv = a.rec(cx, "json_has_ctx"); cv.setf("key", g.key); cv.setf("found", c.ret, "what is found in the value")
        a.fact(eq(Ne0(ret), Ne0(c.ret)), "the search ends when something is found")
@register
class JsonFindInElem(Has):
    fn = "find_in_elem"
    def pre(self, a, cx, val, i): return self.ctxof(a, cx)
    def post(self, a, g, ret, cx, val, i): self.after(a, g, ret, cx, None, val)
@register
class JsonMatchKey(Has):
    fn = "match_key"
    def pre(self, a, cx, key, val):
        g = self.ctxof(a, cx); g.k = text_in(a, key, "member", 1 << 30); return g
    def post(self, a, g, ret, cx, key, val):
        ctx = a.ctx; (x, n), (y, m) = g.text, g.k
        if calls(a, "cee_json_has"):
            k = ctx.fresh("k")
            a.fact(Not(And(eq(n, m), self.eqall(a, x, y, n))), "searched deeper only if the key differs")
            self.after(a, g, ret, cx, key, val); return
        a.fact(eq(n, m), "the key is equal (length)")
        a.forall([x, y], lambda q: Implies(And(le(0, q), lt(q, n)), eq(x.get(ctx, q), y.get(ctx, q))), "the key is equal")
        cv = a.rec(cx, "json_has_ctx"); cv.setf("key", g.key); cv.setf("found", val, "the value of the key"); a.fact(ne(ret, 0), "the search ends")
    def eqall(self, a, x, y, n):
        """x and y agree on [0, n): assumed for the proof that strcmp would then have said equal"""
        ctx = a.ctx; b = z3.Bool(ctx.freshname("agree")); ctx.keep.append(b)
        ctx.addfact([x, y], lambda q: Implies(And(b, le(0, q), lt(q, n)), eq(x.get(ctx, q), y.get(ctx, q))))
        return b
@register
class JsonHas(JObj):
    fn = "cee_json_has"
    def pre(self, a, j, key):
        v = jval(a, j); return G(t=v.t, p=v.p)
    def post(self, a, g, ret, j, key):
        for k, op, f in (("object", "cee_map_iterate", "match_key"), ("array", "cee_list_iterate", "find_in_elem")):
            if a.branch(eq(g.t, kind(a, k))):
                c = self.the(a, "has", op); self.only(a, c)
                a.fact(And(eq(c.args[0], g.p), eq(c.args[2], faddr(a, f))), "every member is searched")
                a.fact(eq(c.key, key), "for the key given"); a.fact(eq(c.before, 0), "nothing is found yet")
                a.fact(eq(ret, c.found), "what is found is returned"); return
        self.none(a); a.fact(eq(ret, 0), "NULL for anything else")
def iterated(a, c, x, cx, f):
    """the iteration may set `found` in its context"""
    off = a.tu.rec("json_has_ctx")
    k, fo = field(a.tu, "json_has_ctx", "key")[0], field(a.tu, "json_has_ctx", "found")[0]
    c.key = a.ex.load(simp(add(cx, k)), P); c.before = a.ex.load(simp(add(cx, fo)), P)
    c.found = a.ctx.fresh("found", 0, 1 << 47); a.ex.store(simp(add(cx, fo)), P, c.found)
JsonHas.views = dict(VIEWS, cee_map_iterate=Ev("cee_map_iterate", make=iterated), cee_list_iterate=Ev("cee_list_iterate", make=iterated))

@register
class JsonEmpty(JObj):
    fn = "cee_json_empty"
    views = dict(VIEWS, cee_list_size=Ev("cee_list_size"))
    props = ("C19",)
    def pre(self, a, j): return jval(a, j)
    def post(self, a, g, ret, j):
        for k, op in (("object", "cee_map_size"), ("array", "cee_list_size")):
            if a.branch(eq(g.t, kind(a, k))):
                c = self.the(a, "empty", op); a.fact(And(eq(c.args[0], g.p), eq(Ne0(ret), If(eq(c.ret, 0), 1, 0))), "empty exactly when nothing is in it"); return
        a.fact(eq(ret, 0), "nothing else is empty")
@register
class JsonObjectMk(JObj):
    fn = "cee_json_object_mk"; props = ("C19",)
    views = dict(cee_map_mk=Ev("cee_map_mk", nonnull=True), cee_tagged_mk=Ev("cee_tagged_mk", nonnull=True))
    def post(self, a, g, ret, st):
        m = self.the(a, "object", "cee_map_mk"); t = self.the(a, "object", "cee_tagged_mk")
        a.fact(And(eq(m.args[0], st), eq(m.args[1], faddr(a, "strcmp"))), "an empty map compared by text")
        a.fact(And(eq(t.args[0], st), eq(t.args[1], kind(a, "object")), eq(t.args[2], m.ret), eq(ret, t.ret)), "the object holds it")
@register
class JsonListify(JObj):
    """an array itself; an object or string as the only element of a new array; anything else traps"""
    fn = "cee_json_listify"
    views = dict(VIEWS, cee_json_array_append=Ev("cee_json_array_append"))
    def pre(self, a, j):
        v = jval(a, j); return G(t=v.t, p=v.p, nz=a.ctx.assume(ne(v.p, 0)))
    def trap(self, a, g, j): return Not(Or(*[eq(g.t, kind(a, k)) for k in ("array", "object", "string")]))
    def post(self, a, g, ret, j):
        if a.branch(eq(g.t, kind(a, "array"))): a.fact(eq(ret, j), "an array is itself"); self.none(a); return
        self.made(a, ret, "cee_json_array_mk"); c = self.the(a, "listify", "cee_json_array_append"); self.only(a, c)
        a.fact(And(eq(c.args[0], ret), eq(c.args[1], j)), "its only element is the value")

# ---------------------------------------------------------------------------------------------- arrays
class ArrOp(Contract):
    props = ("C20",); nocall = True
    def pre(self, a, j, *r):
        g = jval(a, j); g.arr = a.branch(eq(g.t, kind(a, "array"))); g.s = sect(a)
        if g.arr: g.l = list_own(a, g.p); a.fact(lt(g.l.n, SZ - 1), "length below 2^31"); self.more(a, g, *r)
        return g
    def more(self, a, g, *r): pass
    def trap(self, a, g, j, *r): return not g.arr
    def elem(self, a, g, e): policy_ok(a, g.l.pol, e, g.s)
@register
class JsonArrayAppend(ArrOp):
    fn = "cee_json_array_append"
    def more(self, a, g, v): self.elem(a, g, v)
    def post(self, a, g, ret, j, v):
        l = g.l; list_is(a, g.p, simp(add(l.n, 1)), l.arr.store(l.n, v), l.pol); a.map_is("SECT", counted(a, g.s, l.pol, v), g.s.dom)
@register
class JsonArrayInsert(ArrOp):
    fn = "cee_json_array_insert"
    def more(self, a, g, i, v): a.fact(And(le(0, i), le(i, g.l.n)), "index between 0 and the size"); self.elem(a, g, v)
    def post(self, a, g, ret, j, i, v):
        l = g.l; arr = l.arr.copyin(add(i, 1), l.arr, i, sub(l.n, i)).store(i, v)
        list_is(a, g.p, simp(add(l.n, 1)), arr, l.pol); a.map_is("SECT", counted(a, g.s, l.pol, v), g.s.dom)
@register
class JsonArrayRemove(ArrOp):
    fn = "cee_json_array_remove"
    def more(self, a, g, i):
        l = g.l; g.ok = a.branch(And(le(0, i), lt(i, l.n)))
        if g.ok:
            g.e = l.arr.get(a.ctx, i); policy_ok(a, l.pol, g.e, g.s, False)
            a.fact(Implies(eq(l.pol, DEL), eq(g.s["retained"].get(a.ctx, sect0(g.e)), 1)), "elements of a DEL list are retained by it")
    def post(self, a, g, ret, j, i):
        l = g.l
        if not g.ok: list_is(a, g.p, l.n, l.arr, l.pol); a.map_is("SECT", g.s.fields, g.s.dom); return
        list_is(a, g.p, simp(sub(l.n, 1)), l.arr.copyin(i, l.arr, add(i, 1), sub(sub(l.n, 1), i)), l.pol)
        a.map_is("SECT", counted(a, g.s, l.pol, g.e, True), g.s.dom)
@register
class JsonArrayConcat(Contract):
    """the source's elements follow the destination's; the source is unchanged"""
    fn = "cee_json_array_concat"; props = ("C20",); nocall = True; loops = {("cee_json_array_concat", 0): "loop", ("cee_json_array_concat", 1): "loop"}
    def pre(self, a, d, s):
        ctx = a.ctx
        x, y = jval(a, d), jval(a, s); g = G(x=x, y=y, s=sect(a))
        g.ok = a.branch(And(eq(x.t, kind(a, "array")), eq(y.t, kind(a, "array"))))
        ctx.assume(And(ne(x.p, 0), ne(y.p, 0)))
        if g.ok:
            g.d, g.e = list_own(a, x.p), list_own(a, y.p); g.dp, g.sp = x.p, y.p
            self.room(a, g)
        return g
    def room(self, a, g):
        ctx = a.ctx; n, m = g.d.n, g.e.n; arr, s = g.e.arr, g.s
        a.fact(lt(add(n, m), SZ - 1), "length below 2^31"); a.fact(eq(g.d.pol, RC), "the elements are counted")
        a.forall([arr], lambda k: Implies(And(le(0, k), lt(k, m)), And(s.dom.get(ctx, sect0(arr.get(ctx, k))), lt(add(s["in_degree"].get(ctx, sect0(arr.get(ctx, k))), m), 65535))), "the elements are live and their counts can grow")
    def trap(self, a, g, *r): return not g.ok
    def part(self, a, g, k):
        list_is(a, g.dp, simp(add(g.d.n, k)), g.d.arr.copyin(g.d.n, g.e.arr, 0, k), g.d.pol)
        list_is(a, g.sp, g.e.n, g.e.arr, g.e.pol)
        grown(a, g.s.fields, g.s.dom, k, g.s.dom)
    def loop(self, a, L):
        g = L.g; i = L.v("i")
        a.fact(And(le(0, i), le(i, g.e.n)), "i within the source"); self.part(a, g, i)
    def post(self, a, g, ret, d, s): self.part(a, g, g.e.n)
class ArrNew(JObj):
    """exactly one element is appended to the array's own list"""
    def pre(self, a, j, *r):
        v = jval(a, j); g = G(p=v.p, arr=a.branch(eq(v.t, kind(a, "array"))), nz=a.ctx.assume(ne(v.p, 0)))
        if g.arr: self.more(a, g, *r)
        return g
    def more(self, a, g, *r): pass
    def trap(self, a, g, *r): return not g.arr
    def post(self, a, g, ret, j, *r):
        c = self.the(a, "append", "cee_list_append"); self.only(a, c); a.fact(eq(c.args[0], g.p), "to the array's own list")
        self.value(a, g, c.args[1], *r)
@register
class JsonArrayAppendBool(ArrNew):
    fn = "cee_json_array_append_bool"; value = JsonObjectSetBool.value
@register
class JsonArrayAppendStr(ArrNew):
    fn = "cee_json_array_append_str"
    def more(self, a, g, s): g.str = text_in(a, s, "str", 1 << 30)
    value = JsonObjectSetStr.value
@register
class JsonArrayAppendStrf(ArrNew):
    fn = "cee_json_array_append_strf"
    def more(self, a, g, fmt, v): g.str = fmt_of(a, fmt, v)
    value = JsonObjectSetStrf.value

# ---- a text that is a number; an error noted once
def scanned(spec, ex):
    """sscanf(text, "%ld%c", &i, &c): SCANNED(text) of the two, the number SCANNUM(text)"""
    def f(n, args):
        ctx = ex.ctx; xs = ex.a1(args); a = A(ex, False)
        r = ctx.find(simp(xs[1])); t = getattr(r[0], "text", None) if r else None
        t = None if t is None else "".join(chr(c) for c in t if c)
        if t not in ("%ld%c", "%lld%c", "%ld %c"): raise Unsupported("sscanf with this format")
        if " " in t: raise Unsupported("sscanf with this format")
        k, v = SCAN(a, xs[0])
        if a.branch(ge(k, 1)): ex.store(xs[2], ("int", 8, True), v)
        if a.branch(eq(k, 2)): ex.store(xs[3], ("int", 1, True), ctx.fresh("rest", -128, 127))
        return k
    return f
def SCAN(a, p):
    f = lambda n: z3.Function(n, z3.IntSort(), z3.IntSort())(T(p))
    k, v = f("SCANNED"), f("SCANNUM"); a.ctx.keep.append((k, v))
    a.ctx.assume(And(le(-1, k), le(k, 2))); a.ctx.assume(And(le(-(1 << 63), v), lt(v, 1 << 63))); return k, v
@register
class Str2I64(JObj):
    """0 and the number if the text is one number and nothing else"""
    fn = "str2i64"
    def builtin(self, ex, name): return scanned(self, ex) if name == "sscanf" else None
    def pre(self, a, s, ip):
        g = G(z=a.branch(eq(ip, 0)))
        if not g.z: g.old = a.chunk(ip, 8, "number").get(0, ("int", 8, True))
        return g
    def post(self, a, g, ret, s, ip):
        k, v = SCAN(a, s); a.fact(Iff(eq(ret, 0), eq(k, 1)), "0 exactly for one number and nothing after it")
        if not g.z: a.fact(Implies(eq(k, 1), eq(a.chunk(ip, 8, "number").get(0, ("int", 8, True)), v)), "the number")
        self.none(a)
def member(a, c, j, key):
    if a.branch(eq(a.ctx.fresh("missing", 0, 1), 1)): c.k = None; return 0
    anyjson(a, c); c.k = a.ex.load(c.ret, U32); c.s = a.ex.load(simp(add(c.ret, 8)), U64)
def asi64(a, c, v, r):
    c.rc = zf1(a, "TOI64", v); a.ctx.assume(And(le(0, c.rc), le(c.rc, 200)))
    if a.branch(eq(c.rc, 0)): a.ex.store(r, ("int", 8, True), a.ctx.fresh("i64", -(1 << 63), (1 << 63) - 1))
    return c.rc
def zf1(a, n, x):
    r = z3.Function(n, z3.IntSort(), z3.IntSort())(T(x)); a.ctx.keep.append(r); return r
@register
class JsonConvertI64(JObj):
    """a member whose text is a number is replaced by the number; true if the member is an integer afterwards"""
    fn = "cee_json_object_convert_to_i64"; inline = ("str2i64",)
    views = dict(VIEWS, cee_json_object_get=Ev("cee_json_object_get", make=member), cee_json_to_i64x=Ev("cee_json_to_i64x", make=asi64), cee_json_object_set_i64=Ev("cee_json_object_set_i64"))
    def builtin(self, ex, name): return scanned(self, ex) if name == "sscanf" else None
    def pre(self, a, j, key):
        v = jval(a, j); g = G(isobj=a.branch(eq(v.t, kind(a, "object"))), p=v.p)
        if g.isobj: a.ctx.assume(ne(g.p, 0))
        return g
    def post(self, a, g, ret, j, key):
        pure = calls(a, "cee_json_object_get", "cee_json_to_i64x"); cnt = calls(a, "cee_incr_indegree", "cee_del_ref"); sets = calls(a, "cee_json_object_set_i64")
        self.only(a, *pure, *cnt, *sets); cs = calls(a)
        if not g.isobj: a.fact(eq(ret, 0), "false for anything but an object"); return self.only(a, *pure)
        c = self.the(a, "the member", "cee_json_object_get"); a.fact(And(eq(c.args[0], j), eq(c.args[1], key)), "the member of the key")
        if c.k is None: a.fact(eq(ret, 0), "false without the member"); return self.only(a, *pure)
        rc = zf1(a, "TOI64", c.ret)
        if a.branch(eq(rc, 0)): a.fact(ne(ret, 0), "true for an integer"); return self.only(a, *pure)
        k, v = SCAN(a, c.s)
        if a.branch(And(eq(c.k, kind(a, "string")), eq(k, 1))):
            a.fact(ne(ret, 0), "true for the text of a number"); s = self.the(a, "the number replaces the text", "cee_json_object_set_i64")
            a.fact(And(eq(s.args[0], j), eq(s.args[1], key), eq(s.args[2], v)), "the number replaces the text")
            inc, dec = calls(a, "cee_incr_indegree"), calls(a, "cee_del_ref")
            if len(inc) != len(dec) or len(inc) > 1: a.ctx.fail("the text is kept while it is replaced, then given up once")
            for x in inc: a.fact(And(eq(x.args[0], 0), eq(x.args[1], c.ret)), "the text replaced is kept")
            for x in dec: a.fact(And(eq(x.args[0], c.ret)), "the text replaced is given up")
            for x, y in zip(inc, dec): a.fact(cs.index(x) < cs.index(s) < cs.index(y), "around its replacement")
        else: a.fact(eq(ret, 0), "false for any other value"); self.only(a, *pure)
@register
class JsonSetError(JObj):
    """the formatted text becomes the member "error" unless there is one; no object to note it in: nothing"""
    fn = "cee_json_set_error"
    views = dict(VIEWS, cee_json_select=Ev("cee_json_select"), cee_json_object_set=Ev("cee_json_object_set"))
    def pre(self, a, x, fmt, va):
        g = G(z=a.branch(eq(x, 0)))
        if g.z: return g
        g.o = a.chunk(x, 8, "error object", ro=True).get(0, P); g.z = a.branch(eq(g.o, 0))
        if g.z: return g
        v = jval(a, g.o); g.isobj = a.branch(eq(v.t, kind(a, "object"))); g.p = v.p
        if g.isobj: a.ctx.assume(ne(g.p, 0))
        g.str = fmt_of(a, fmt, va); return g
    def trap(self, a, g, *r): return False if g.z else not g.isobj
    def post(self, a, g, ret, x, fmt, va):
        from .sqlrows import literal
        if g.z: self.none(a); return
        s = self.the(a, "the error so far", "cee_json_select")
        if literal(a, s.args[1]) != ".error": a.ctx.fail("the member error", kind="own")
        a.fact(eq(s.args[0], g.o), "of the object"); sets = calls(a, "cee_json_object_set"); self.only(a, s, *sets)
        if not a.branch(eq(s.ret, 0)):
            if sets: a.fact(False, "an error noted before stays")
            return
        c = self.the(a, "the error is noted", "cee_json_object_set"); m = self.made(a, c.args[2], "cee_json_str_mk")
        if literal(a, c.args[1]) != "error": a.ctx.fail("as the member error", kind="own")
        a.fact(eq(c.args[0], g.o), "in the object"); self.copy(a, m.args[1], g.str, "the formatted text")
