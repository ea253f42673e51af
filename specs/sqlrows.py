"""sqlite3/cee-sqlite3.c (C23), second part: rows, reports, values taken from JSON, the generic operation.
As in sqlite.py, the SQL library and the JSON functions are recorded calls."""
import re
from .base import *
from .str import *
from .json import kind
from .hash import zf
from .sqlite import *
from .sqlite import chosen, SV, Sq, SqSel, SqSelErr, LV, QUIET

def literal(a, p):
    r = a.ctx.find(simp(p)); t = getattr(r[0], "text", None) if r else None
    return None if t is None else "".join(chr(c) for c in t[cval(simp(r[1])) or 0:] if c)
def variadic(c):
    """the variable arguments of a recorded call"""
    r = c.args[-1]
    return [getattr(x, "v", x) for x in r.args] if isinstance(r, Pack) and r.args is not None else None
def vals(xs): return [x[0] if isinstance(x, tuple) else x for x in xs]

@register
class AcceptResult(Sq):
    """the status object: the one given, a new one, or none if none is wanted"""
    fn = "accept_result"
    def pre(self, a, state, status, rp):
        g = G(st=jcell(a, status, "status"), state=state); a.chunk(rp, 8, "result"); return g
    def post(self, a, g, ret, state, status, rp):
        obj = self.status(a, g, status); a.chunk(rp, 8, "result").set(0, P, obj, "it is returned"); self.only(a)

def noted(a, c, sp, *r):
    """an error is noted in the object at *sp"""
    c.obj = 0 if cval(simp(sp)) == 0 or a.ctx.branch(eq(sp, 0)) else a.ex.load(sp, P)
def isarr(a, c, j): a.ctx.assume(Implies(eq(j, 0), eq(c.ret, 0)))
@register
class ReportError(Sq):
    """a failed selection is reported by the member error of the status object, or of a new object at the end of a status array"""
    fn = "report_error"
    views = dict(SV, cee_json_set_error=Ev("cee_json_set_error", make=noted), cee_json_to_array=Ev("cee_json_to_array", make=isarr))
    def pre(self, a, cs, rc, sql, error, status): return self.base(a, cs, status)
    def post(self, a, g, ret, cs, rc, sql, error, status):
        ctx = a.ctx; isa = [c for c in calls(a, "cee_json_to_array") if ctx.valid(eq(c.args[0], g.st.old))] if g.st.nz else []
        arr = None
        if g.st.nz and a.branch(ne(g.st.old, 0)):
            if not isa: self.own(a, "whether the status is an array is looked up")
            if a.branch(ne(isa[0].ret, 0)): arr = g.st.old
        es = self.the(a, "the error is reported", "cee_json_set_error"); ok = [es]
        if arr is not None:
            a.chunk(status, 8, "status").set(0, P, arr, "the status array is kept"); mk = self.the(a, "a new object", "cee_json_object_mk"); a.fact(eq(mk.args[0], g.state), "in the state"); obj = mk.ret
            ap = self.the(a, "at the end of the array", "cee_json_array_append"); a.fact(And(eq(ap.args[0], arr), eq(ap.args[1], obj)), "the object goes to the end of the status array"); ok.append(ap)
        else: obj = self.status(a, g, status)
        a.fact(eq(es.obj, obj), "the error is a member of that object")
        if g.st.nz and a.branch(ne(error, 0)):
            x = self.the(a, "the statement's error", "cee_json_object_append"); a.fact(And(eq(x.args[0], obj), eq(x.args[2], error), literal(a, x.args[1]) == "error"), "the error found is a member of that object"); ok.append(x)
            cs_ = calls(a)
            if cs_.index(x) > cs_.index(es): a.fact(False, "the error found is not hidden by a general one")
        self.only(a, *ok)

# ---- one row
COLS = dict(sqlite3_column_int64=1, sqlite3_column_double=2, sqlite3_column_text=3, sqlite3_column_blob=4)
KINDS = dict(cee_json_i64_mk=1, cee_json_double_mk=2, cee_json_str_mkf=3, cee_json_blob_mk=4, cee_json_null=5)
def column(a, c, stmt, *r):
    g = a.ex.spec.g
    if not a.ctx.valid(eq(stmt, g.stmt)): a.ctx.fail("the columns are those of the row", kind="own")
    if c.fn == "sqlite3_column_count": return g.n
    i = r[0]; a.fact(And(le(0, i), lt(i, g.n)), "a column of the row")
    if c.fn == "sqlite3_column_name": return g.NAME.get(a.ctx, i)
    if c.fn == "sqlite3_column_type": return g.TY.get(a.ctx, i)
    if c.fn == "sqlite3_column_int": return None                # what is left of a 64-bit number
    if c.fn == "sqlite3_column_bytes": r = zf(a, "COLBYTES", i); a.ctx.assume(And(le(0, r), lt(r, SZ))); return r
    if c.fn in COLS: a.fact(eq(COLS[c.fn], g.TY.get(a.ctx, i)), "a column is read as what it is")
    r = zf(a, "COL%d" % COLS[c.fn], i); a.ctx.assume(And(le(-1 << 63, r), lt(r, 1 << 63)) if c.fn == "sqlite3_column_int64" else And(le(0, r), le(r, 1 << 47))); return r
def flagged(a, c, info, name):
    g = a.ex.spec.g; a.fact(eq(info, g.info), "the flags of this list")
    r = zf(a, "FLAG_" + c.fn, name); a.ctx.assume(And(le(0, r), le(r, 1))); return r
RV = dict(SV); RV.update({f: Ev(f, make=column) for f in list(COLS) + ["sqlite3_column_int", "sqlite3_column_count", "sqlite3_column_name", "sqlite3_column_type", "sqlite3_column_bytes"]})
RV.update({f: Ev(f, nonnull=True) for f in KINDS}); RV.update({f: Ev(f, make=flagged) for f in ("dont_return_colum", "dont_label")})
@register
class GetARow(Sq):
    """every column that is to be returned becomes a member of its name and kind; an unlabelled single column becomes the value itself"""
    fn = "get_a_row"; views = RV; loops = {("get_a_row", 0): "cols"}; boundable = False
    def pre(self, a, cls, state, info, stmt):
        ctx = a.ctx; g = G(cls=cls, state=state, info=info, stmt=stmt, n=ctx.fresh("columns", 0, 1 << 16), i=None)
        g.NAME = Base(ctx, "NAME", 8, False); g.TY = Base(ctx, "TYPE", 4, True); g.VAL = Base(ctx, "VAL", 8, False); ctx.addfact([g.TY], lambda t: And(le(1, g.TY.get(ctx, t)), le(g.TY.get(ctx, t), 5)))
        return g
    def skip(self, a, g, i): r = zf(a, "FLAG_dont_return_colum", g.NAME.get(a.ctx, i)); a.ctx.assume(And(le(0, r), le(r, 1))); return ne(r, 0)
    def nolabel(self, a, g, i): r = zf(a, "FLAG_dont_label", g.NAME.get(a.ctx, i)); a.ctx.assume(And(le(0, r), le(r, 1))); return ne(r, 0)
    def cols(self, a, L):
        ctx = a.ctx; g = L.g; i = L.v("i"); a.log("calls"); a.fact(And(le(0, i), le(i, g.n)), "within the row"); cs = calls(a)
        if a.produce: g.i = i; g.nc = len(cs)
        elif L.entry:
            for c in cs:
                if c.fn not in ("cee_json_object_mk", "sqlite3_column_count"): self.own(a, "nothing is set before the first column")
        else:
            a.fact(eq(i, add(g.i, 1)), "column after column"); sets = [c for c in cs[g.nc:] if c.fn == "cee_json_object_set"]; mks = [c for c in cs[g.nc:] if c.fn in KINDS]
            for c in cs[g.nc:]:
                if c.fn not in RV or c.fn in SV and c.fn != "cee_json_object_set": self.own(a, "nothing else is done (calls %s)" % c.fn)
            if a.branch(self.skip(a, g, g.i)):
                if sets: a.fact(False, "a column that is not to be returned is left out")
            else:
                if len(sets) != 1 or len(mks) != 1: a.ctx.fail("a column becomes one member")
                s, m = sets[0], mks[0]; ty = g.TY.get(ctx, g.i); k = KINDS[m.fn]
                a.fact(And(eq(s.args[0], self.obj(a)), eq(s.args[1], g.NAME.get(ctx, g.i)), eq(s.args[2], m.ret)), "it is set under the column's name")
                a.fact(eq(k, ty), "its kind is the column's")
                if k != 5: a.fact(eq(m.args[0], g.state), "in the state")
                if k in (1, 2): a.fact(eq(m.args[1], zf(a, "COL%d" % k, g.i)), "its value is the column's")
                if k == 3:
                    v = variadic(m)
                    if literal(a, m.args[1]) != "%s" or not v: self.own(a, "the text is copied as it is")
                    a.fact(eq(vals(v)[0], zf(a, "COL3", g.i)), "its text is the column's")
                if k == 4: a.fact(And(eq(m.args[1], zf(a, "COL4", g.i)), eq(m.args[2], zf(a, "COLBYTES", g.i))), "its bytes are the column's")
                ctx.assume(eq(g.VAL.get(ctx, g.i), m.ret))          # definition
        nl, sv = L.v("no_label"), L.v("single_value")
        a.fact(Implies(eq(i, 0), eq(nl, 0)), "no column yet")
        a.fact(Implies(eq(i, 1), And(Iff(ne(nl, 0), And(Not(self.skip(a, g, 0)), self.nolabel(a, g, 0))), Implies(Not(self.skip(a, g, 0)), eq(sv, g.VAL.get(ctx, 0))))), "the first column and its flag")
    def obj(self, a): return self.the(a, "the row's object", "cee_json_object_mk").ret
    def post(self, a, g, ret, cls, state, info, stmt):
        ctx = a.ctx; ap = calls(a, "cee_json_array_append"); a.fact(eq(g.i, g.n), "every column has its turn")
        if len(ap) != 1: self.own(a, "one value for the row")
        a.fact(eq(self.the(a, "object", "cee_json_object_mk").args[0], state), "in the state")
        one = And(eq(g.n, 1), Not(self.skip(a, g, 0)), self.nolabel(a, g, 0))
        a.fact(And(eq(ap[0].args[0], cls), eq(ap[0].args[1], If(one, g.VAL.get(ctx, 0), self.obj(a)))), "the row joins the array: the object, or the value of a single column without label")
        a.fact(eq(ret, 0), "the selection goes on")

# ---- values taken from JSON
def number_into(ty):
    def make(a, c, j, p):
        if a.ctx.branch(eq(c.ret, 0)):
            c.value = a.fresh("number", ty); a.ex.store(p, ty, c.value)
    return make
PU = dict(SV, cee_json_to_intx=Ev("cee_json_to_intx", make=number_into(I32)), cee_json_to_i64x=Ev("cee_json_to_i64x", make=number_into(I64)), cee_json_to_str=Ev("cee_json_to_str"), cee_json_array_append_strf=Ev("cee_json_array_append_strf"),
          cee_json_str_mkf=Ev("cee_json_str_mkf", nonnull=True))
DF = dict(i=I32, i64=I64, value=P, size=U64, has_value=I32, is_null=I32)
@register
class PopulateUsage(Sq):
    """X: the first entry whose column is the key; that entry's binding takes the value, no other one changes"""
    fn = "populate_usage"; views = PU; loops = {("populate_usage", 0): "loop"}; boundable = True
    builtin = Flag.builtin
    def datacells(self, a, g): return a.chunk(g.data, simp(mul(a.tu.rec(DATA).size, g.N)), "data")
    def pre(self, a, p, key, value):
        ctx = a.ctx; g = G(nm=key); g.N = ctx.fresh("N", 0, 1 << 20); cv = a.rec(p, "_combo", None, "combo", ro=True); a.chunk(key, simp(add(ctx.fresh("keylen", 0, SZ), 1)), "key", ro=True)
        g.used, g.unused, g.errors, g.state = cv.f("used"), cv.f("unused"), cv.f("errors"), cv.f("state"); info, g.data = cv.f("info"), cv.f("data")
        ctx.assume(And(ne(info, 0), ne(g.data, 0)))
        f = records(a, info, INFO, simp(add(g.N, 1)), "info"); g.var, g.col, g.ty, g.nn = f("var_name"), f("col_name"), f("type"), f("not_null"); ctx.addfact([g.ty], lambda t: And(le(0, g.ty.get(ctx, t)), le(g.ty.get(ctx, t), 4)))
        ctx.assume(eq(g.var.get(ctx, g.N), 0)); some = lambda t: Implies(And(le(0, t), lt(t, g.N)), And(ne(g.var.get(ctx, t), 0), ne(g.col.get(ctx, t), 0)))
        ctx.addfact([g.var], some); ctx.addfact([g.col], some)
        g.SAME = BBase(ctx, "SAME"); g.X = ctx.fresh("X", 0, 1 << 20); ctx.assume(le(g.X, g.N)); ctx.assume(Implies(lt(g.X, g.N), And(ne(g.col.get(ctx, g.X), 0), g.SAME.get(ctx, g.col.get(ctx, g.X)))))
        ctx.addfact([g.col], lambda t: Implies(And(le(0, t), lt(t, g.X)), Not(g.SAME.get(ctx, g.col.get(ctx, t)))))
        vc = a.chunk(value, 16, "value", ro=True); g.vt = ctx.fresh("kind", 0, 10); vc.ch.cells[0] = (8, False, g.vt)
        d = self.datacells(a, g); g.d = {n: d.seg(0, a.tu.rec(DATA).size, g.N, t, fo=a.tu.off(DATA, n), name=n) for n, t in DF.items()}
        return g
    def trap(self, a, g, *r):
        return And(lt(g.X, g.N), ne(g.vt, kind(a, "null")), eq(g.ty.get(a.ctx, g.X), 0))       # only a column without type is refused
    def loop(self, a, L):
        g = L.g; i = L.v("i"); a.log("calls"); a.fact(And(le(0, i), le(i, g.X)), "no entry for this key so far")
        d = self.datacells(a, g)
        for n, t in DF.items(): d.setseg(0, a.tu.rec(DATA).size, g.N, g.d[n], t, fo=a.tu.off(DATA, n), label="no binding changes")
        if a.produce: g.at = len(calls(a))
        elif not L.entry and len(calls(a)) > g.at: self.own(a, "nothing is done about the other entries")
    def note(self, a, what, obj, name, c):
        a.fact(eq(c.args[0], obj), what)
    def post(self, a, g, ret, p, key, value):
        ctx = a.ctx; X = g.X; en = lambda n: a.tu.enumn["CEE_SQLITE3_" + n]; ok = []; d = self.datacells(a, g); new = dict(g.d)
        def noted_in(obj, exact=True):
            cs = calls(a, "cee_json_array_append_strf")
            if not a.branch(ne(obj, 0)):
                if cs: a.fact(False, "nothing is listed when no list is wanted")
                return
            if len(cs) != 1: a.ctx.fail("one entry is listed", kind="own")
            c = cs[0]; a.fact(eq(c.args[0], obj), "in the list for it"); ok.append(c)
            v = variadic(c)
            if exact and (literal(a, c.args[1]) != "%s" or not v): self.own(a, "the column's name is listed")
            a.fact(eq(vals(v)[0], g.col.get(ctx, X)), "the column's name is listed")
        def put(**kw):
            for n, v in kw.items(): new[n] = new[n].store(X, v)
        reads = calls(a, "cee_json_to_intx", "cee_json_to_i64x", "cee_json_to_str")
        for r in reads: a.fact(eq(r.args[0], value), "the value given is read")
        if a.branch(eq(X, g.N)):
            if a.branch(ne(g.unused, 0)):
                c = self.the(a, "unknown keys are listed", "cee_json_array_append"); m = self.the(a, "unknown keys are listed", "cee_json_str_mkf"); ok += [c, m]
                v = variadic(m)
                if literal(a, m.args[1]) != "%s" or not v: self.own(a, "the key is listed")
                a.fact(And(eq(c.args[0], g.unused), eq(c.args[1], m.ret), eq(m.args[0], g.state), eq(vals(v)[0], key)), "a key without entry is listed as unused")
            a.fact(eq(ret, 0), "and passed over")
        elif a.branch(eq(g.vt, kind(a, "null"))):
            if a.branch(eq(g.nn.get(ctx, X), 0)): put(has_value=1, is_null=1); noted_in(g.used)
            a.fact(eq(ret, 0), "null is bound unless the column refuses it")
        else:
            t = g.ty.get(ctx, X); put(is_null=0, size=0); f = None
            for n, fn, fld in (("INT", "cee_json_to_intx", "i"), ("INT64", "cee_json_to_i64x", "i64"), ("TEXT", "cee_json_to_str", "value")):
                if not a.branch(eq(t, en(n))): continue
                r = self.the(a, "the value is read", fn); ok.append(r); f = n
                good = ne(r.ret, 0) if n == "TEXT" else eq(r.ret, 0)
                if a.branch(good):
                    put(**{fld: r.ret if n == "TEXT" else r.value}); put(has_value=1); noted_in(g.used); a.fact(eq(ret, 0), "the value is taken")
                else:
                    if n == "TEXT": put(value=0)
                    noted_in(g.errors, False); a.fact(ne(ret, 0), "a value of the wrong kind is an error")
            if f is None:
                a.fact(eq(t, en("BLOB")), "a known type"); noted_in(g.errors, False); a.fact(ne(ret, 0), "blobs are not taken from JSON")
        for n, ty in DF.items():
            if n in ("value",) and cval(simp(ret)) != 0: continue
            d.setseg(0, a.tu.rec(DATA).size, g.N, new[n], ty, fo=a.tu.off(DATA, n), label="binding field %s" % n)
        self.only(a, *ok)

def combo(a, c, json, ctx_, f):
    """the fields handed to populate_usage"""
    c.m = {}
    for n in ("state", "errors", "unused", "used", "info", "data", "update_set", "insert_colums", "insert_values"):
        o, t, b = field(a.tu, "_combo", n); c.m[n] = a.ex.load(simp(add(ctx_, o)), t)
JV = dict(SV, cee_json_object_iterate=Ev("cee_json_object_iterate", make=combo), cee_get_state=Ev("cee_get_state", nonnull=True), cee_json_to_object=Ev("cee_json_to_object", nonnull=True))
@register
class BindDataFromJson(Sq):
    """the members of the JSON object are taken one by one; the three lists are the ones given, new ones, or none"""
    fn = "cee_sqlite3_bind_data_from_json"; views = JV
    def pre(self, a, info, data, json, used, unused, errors):
        return G(l=[jcell(a, used, "used"), jcell(a, unused, "unused"), jcell(a, errors, "errors")])
    def post(self, a, g, ret, info, data, json, used, unused, errors):
        it = self.the(a, "the members are taken", "cee_json_object_iterate"); st = self.the(a, "the object's state", "cee_get_state"); self.only(a, it, st, *calls(a, "cee_json_to_object"))
        a.fact(And(eq(it.args[0], json), eq(it.args[2], faddr(a, "populate_usage"))), "every member is taken"); a.fact(And(eq(it.m["info"], info), eq(it.m["data"], data)), "into the data given")
        objs = calls(a, "cee_json_to_object")
        if len(objs) != 1: self.own(a, "the object's state")
        a.fact(And(eq(objs[0].args[0], json), eq(st.args[0], objs[0].ret), eq(it.m["state"], st.ret)), "in the object's state")
        mks = list(calls(a, "cee_json_array_mk"))
        for n, l in zip(("used", "unused", "errors"), g.l):
            if not l.nz: a.fact(eq(it.m[n], 0), "no list of %s" % n); continue
            cv = a.chunk(l.p, 8, n)
            if a.branch(ne(l.old, 0)): cv.set(0, P, l.old, "the list given is kept"); a.fact(eq(it.m[n], l.old), "the list given is used"); continue
            mk = [m for m in mks if a.ctx.valid(eq(m.ret, it.m[n]))]
            if not mk: a.ctx.fail("a new list is made")
            mks.remove(mk[0]); a.fact(eq(mk[0].args[0], st.ret), "in the state"); cv.set(0, P, mk[0].ret, "the new list is handed to the caller")
        if mks: self.own(a, "no further list is made")
        a.fact(eq(ret, 0), "done")

def picked(a, c, o, key): a.ctx.assume(Implies(eq(o, 0), eq(c.ret, 0)))
@register
class Select1As(Sq):
    """one row as a member of the status object, merged into one that is there; errors take the status over"""
    fn = "cee_sqlite3_select1_as"; views = dict(LV, cee_json_object_get=Ev("cee_json_object_get"))
    def pre(self, a, cs, info, data, sql, status, key): return self.base(a, cs, status)
    def post(self, a, g, ret, cs, info, data, sql, status, key):
        s = self.the(a, "select", "cee_sqlite3_select1"); a.fact(And(eq(s.args[0], cs), eq(s.args[1], info), eq(s.args[2], data), eq(s.args[3], sql)), "the statement is run with the bindings given"); a.fact(eq(ret, s.ret), "its status is returned")
        a.fact(eq(s.before, 0), "into a fresh result"); one = s.result; er = [c for c in calls(a, "cee_json_select") if c.path == ".error"]
        if len(er) != 1: self.own(a, "errors are looked for")
        a.fact(eq(er[0].args[0], one), "in the result")
        if not g.st.nz: self.only(a, s, *er); return
        v = a.chunk(status, 8, "status")
        if a.branch(ne(er[0].ret, 0)): v.set(0, P, one, "the error is the status"); self.only(a, s, *er); return
        obj = g.st.old if a.branch(ne(g.st.old, 0)) else None
        if obj is None: mk = self.the(a, "a status object", "cee_json_object_mk"); a.fact(eq(mk.args[0], g.state), "in the state"); obj = mk.ret
        v.set(0, P, obj, "the status object is kept, or a new one")
        if a.branch(eq(one, 0)): self.only(a, s, *er); return
        get = [c for c in calls(a, "cee_json_object_get")]
        if len(get) != 1: self.own(a, "an earlier member is looked up")
        a.fact(And(eq(get[0].args[0], obj), eq(get[0].args[1], key)), "an earlier member of this name is looked up")
        if a.branch(ne(get[0].ret, 0)):
            m = self.the(a, "merge", "cee_json_merge"); a.fact(And(eq(m.args[0], get[0].ret), eq(m.args[1], one)), "the row is merged into the member that is there"); self.only(a, s, *er, m)
        else:
            m = self.the(a, "set", "cee_json_object_set"); a.fact(And(eq(m.args[0], obj), eq(m.args[1], key), eq(m.args[2], one)), "the row becomes the member of this name"); self.only(a, s, *er, m)
@register
class SelectAs(Sq):
    """the rows join the status object's member; an error found joins its member error; with no status yet the result becomes it"""
    fn = "cee_sqlite3_select_as"; views = LV
    def pre(self, a, cs, info, data, sql, status, key): return self.base(a, cs, status)
    def post(self, a, g, ret, cs, info, data, sql, status, key):
        s = self.the(a, "select", "cee_sqlite3_select"); a.fact(And(eq(s.args[0], cs), eq(s.args[1], info), eq(s.args[2], data), eq(s.args[3], sql)), "the statement is run with the bindings given"); a.fact(eq(ret, s.ret), "its status is returned")
        a.fact(eq(s.before, 0), "into a fresh result"); er = [c for c in calls(a, "cee_json_select")]
        for c in er: a.fact(eq(c.args[0], s.result), "errors are looked for in the result")
        if not er or any(c.path != ".error" for c in er): self.own(a, "errors are looked for")
        if not g.st.nz: self.only(a, s, *er); return
        v = a.chunk(status, 8, "status"); bad = a.branch(ne(er[0].ret, 0))
        if a.branch(eq(g.st.old, 0)): v.set(0, P, s.result, "the result becomes the status"); self.only(a, s, *er); return
        v.set(0, P, g.st.old, "the status object is kept"); x = self.the(a, "the result joins the status", "cee_json_object_append"); self.only(a, s, *er, x); a.fact(eq(x.args[0], g.st.old), "in the status object")
        if bad:
            if literal(a, x.args[1]) != "error": a.fact(False, "under error")
            if not any(a.ctx.valid(eq(x.args[2], c.ret)) for c in er): a.fact(False, "the error found joins it")
        else: a.fact(And(eq(x.args[1], key), eq(x.args[2], s.result)), "the rows join the member of this name")

def accepted(a, c, state, status, rp):
    """AcceptResult's contract"""
    if cval(simp(status)) == 0 or a.ctx.branch(eq(status, 0)): c.obj = 0
    else:
        old = a.ex.load(status, P); c.obj = a.ctx.fresh("status", 4096, 1 << 47); a.ctx.assume(Implies(ne(old, 0), eq(c.obj, old))); a.ex.store(status, P, c.obj)
    a.ex.store(rp, P, c.obj)
def composed(a, c, json, p):
    combo(a, c, json, p, None); c.n = {}
    for n in ("update_set", "insert_colums", "insert_values"):
        if a.ctx.valid(eq(c.m[n], 0)): c.n[n] = 0; continue
        o = field(a.tu, "_combo", n)[0]; c.n[n] = a.ctx.fresh(n, 4096, 1 << 47)
        for v in c.n.values():
            if v is not c.n[n]: a.ctx.assume(ne(v, c.n[n]))
        a.ex.store(simp(add(p, o)), P, c.n[n])
def distinct(a, c, *r):
    """a constructor gives an object unlike the earlier ones"""
    a.ctx.assume(le(4096, c.ret))
    for o in calls(a):
        if o.fn in MAKES: a.ctx.assume(ne(o.ret, c.ret))
MAKES = ("cee_json_array_mk", "cee_json_object_mk", "cee_str_mk")
GV = dict(JV, accept_result=Ev("accept_result", make=accepted), compose_dyn_stmts=Ev("compose_dyn_stmts", make=composed), cee_json_to_bind_info=Ev("cee_json_to_bind_info", nonnull=True), 
          cee_del=Ev("cee_del"), **{f: Ev(f, nonnull=True, make=distinct) for f in ("cee_json_array_mk", "cee_json_object_mk", "cee_str_mk")})
@register
class GenericOpcode(Sq):
    """the input's members are bound, the dynamic statements composed from them, and the operation run once with these; what was used is reported"""
    fn = "cee_sqlite3_generic_opcode"; views = GV
    def builtin(self, ex, name):
        if name != "strlen": return None
        def strlen(n, args):
            p = ex.a1(args)[0]; r = zf(A(ex, True), "STRLEN", p); ex.ctx.assume(And(le(0, r), lt(r, SZ))); return r
        return strlen
    def pre(self, a, cs, json, info, data, ss, status, f):
        g = self.base(a, cs, status); cv = a.rec(ss, "cee_sqlite3_stmt_strs", None, "stmts"); g.tmpl, g.dyn, g.table = cv.f("update_template"), cv.f("insert_dynamic"), cv.f("table_name")
        g.keep = {n: cv.f(n) for n in ("select_stmt", "insert_stmt", "update_stmt", "insert_stmt_x", "update_stmt_x")}; g.f, g.ss, g.run = f, ss, None; return g
    def trap(self, a, g, cs, json, info, data, ss, status, f): return And(eq(info, 0), ne(data, 0))
    def fnptr(self, ex, target, v, rt):
        ctx = ex.ctx; g = self.g
        if g.run is not None: ctx.fail("the operation is run once")
        ld = lambda n: ex.load(simp(add(g.ss, ex.tu.off("cee_sqlite3_stmt_strs", n))), P)
        g.run = G(target=target, v=list(v), update=ld("update_stmt_x"), insert=ld("insert_stmt_x"), ret=ctx.fresh("rc", -1 << 31, (1 << 31) - 1)); c = G(fn="operation", args=v, ret=g.run.ret)
        ctx.ghosts["calls"] = ctx.ghosts.get("calls", []) + [c]; return g.run.ret
    def post(self, a, g, ret, cs, json, info, data, ss, status, f):
        ctx = a.ctx; cs_ = calls(a); r = g.run
        if r is None: ctx.fail("the operation is run")
        a.fact(eq(ret, r.ret), "its outcome is returned"); a.fact(And(eq(r.target, f), eq(r.v[0], cs), eq(r.v[2], data), eq(r.v[3], ss), eq(r.v[4], status)), "the operation is run with the statements and the status given")
        comp = self.the(a, "statements are composed", "compose_dyn_stmts"); at = lambda c: cs_.index(c); run = [c for c in cs_ if c.fn == "operation"][0]
        its = calls(a, "cee_json_object_iterate"); binfo = calls(a, "cee_json_to_bind_info"); ok = [run, comp]
        if not a.branch(eq(info, 0)):
            if len(its) != 1 or binfo: self.own(a, "the members are taken once")
            it = its[0]; ok.append(it); a.fact(And(eq(it.args[0], json), eq(it.args[2], faddr(a, "populate_usage")), eq(it.m["info"], info), eq(it.m["data"], data)), "every member is taken into the data given"); a.fact(eq(r.v[1], info), "run with these entries")
            if not at(it) < at(comp): a.fact(False, "the statements are composed from what was taken")
            m = it.m; a.fact(eq(m["state"], g.state), "in the state")
        else:
            if len(binfo) != 1 or its: self.own(a, "the entries are made from the input")
            a.fact(And(eq(binfo[0].args[0], json), eq(r.v[1], binfo[0].ret)), "the entries are those of the input"); m = comp.m; ok.append(binfo[0])
            if not at(binfo[0]) < at(comp): a.fact(False, "the statements are composed from these entries")
        a.fact(And(eq(comp.args[0], json), eq(comp.m["info"], r.v[1]), eq(comp.m["data"], data)), "the statements are composed from the entries and the data")
        if not at(comp) < at(run): a.fact(False, "the statements are composed before they are run")
        strs = calls(a, "cee_str_mk")
        def strof(v, what):
            x = [c for c in strs if ctx.valid(eq(c.ret, v))]
            if not x: ctx.fail(what)
            return x[0]
        dyn = a.branch(ne(g.dyn, 0)); tm = a.branch(ne(g.tmpl, 0))
        for n, on in (("update_set", tm), ("insert_colums", dyn), ("insert_values", dyn)):
            if on:
                s = [c for c in strs if ctx.valid(eq(c.ret, comp.m[n]))]
                if not s: self.own(a, "%s starts empty" % n)
                s = s[0]
                if literal(a, s.args[1]) != "": self.own(a, "%s starts empty" % n)
            else: a.fact(eq(comp.m[n], 0), "%s is not wanted" % n)
        if dyn:
            a.fact(ne(comp.m["insert_colums"], comp.m["insert_values"]), "two texts"); s = strof(r.insert, "the insert statement is composed"); v = vals(variadic(s) or [])
            if literal(a, s.args[1]) != "insert into %s (%s) values (%s)" or len(v) != 3: self.own(a, "the insert statement's form")
            a.fact(And(eq(v[0], g.table), eq(v[1], comp.n["insert_colums"]), eq(v[2], comp.n["insert_values"])), "the table, the columns, the values")
        else: a.fact(eq(r.insert, g.keep["insert_stmt_x"]), "no insert statement is composed")
        if tm:
            ln = zf(a, "STRLEN", comp.n["update_set"]); ctx.assume(le(0, ln))
            if a.branch(ne(ln, 0)):
                s = strof(r.update, "the update statement is composed"); v = vals(variadic(s) or [])
                if len(v) != 1: self.own(a, "the update statement's form")
                a.fact(And(eq(s.args[1], g.tmpl), eq(v[0], comp.n["update_set"])), "the template takes the assignments")
            else: a.fact(eq(r.update, 0), "nothing to update")
        else: a.fact(eq(r.update, g.keep["update_stmt_x"]), "no update statement is composed")
        cv = a.rec(ss, "cee_sqlite3_stmt_strs", None, "stmts")
        for n in ("select_stmt", "insert_stmt", "update_stmt"): cv.setf(n, g.keep[n], "the statements given are kept")
        cv.setf("update_template", g.tmpl); cv.setf("insert_dynamic", g.dyn); cv.setf("table_name", g.table)
        dels = calls(a, "cee_del"); ok += dels; gone = [c.args[0] for c in dels]
        for n, on, x in (("update_stmt_x", tm, r.update), ("insert_stmt_x", dyn, r.insert)):
            if on: cv.setf(n, 0, "no composed statement is left behind")
            else: cv.setf(n, g.keep[n], "%s is kept" % n)
        for c in dels:
            if at(c) < at(run): a.fact(False, "nothing is given up before the run")
        acc = self.the(a, "the status", "accept_result"); a.fact(And(eq(acc.args[0], g.state), eq(acc.args[1], status)), "the status object"); ok.append(acc)
        if g.st.nz: a.chunk(status, 8, "status").set(0, P, acc.obj, "the status object is the caller's")
        if not at(acc) < at(run): a.fact(False, "the status is there before the run")
        notes = calls(a, "cee_json_object_set_strf"); ok += notes; sel = calls(a, "cee_json_select"); sets = calls(a, "cee_json_object_set"); ok += sets
        if not g.st.nz:
            for c in sets:
                for y in c.args[:1]: a.fact(ne(y, 0), "no status is written")
            self.only(a, *ok, *strs); return
        def member(obj, key, val, what):
            x = [c for c in sets if literal(a, c.args[1]) == key]
            if len(x) != 1: a.ctx.fail(what)
            a.fact(And(eq(x[0].args[0], obj) if obj is not None else True, eq(x[0].args[2], val)), what); return x[0]
        dbg = [c for c in sets if literal(a, c.args[1]) == "debug"]
        if len(dbg) != 1: self.own(a, "a report")
        a.fact(eq(dbg[0].args[0], acc.obj), "the report is a member of the status object"); rep = dbg[0].args[2]
        lists = {n: m[n] if n in m and its else None for n in ("used", "unused", "errors")}
        mk = calls(a, "cee_json_array_mk")
        if its:
            member(rep, "used_keys", m["used"], "the keys used are reported")
            for n, key, obj in (("unused", "unused_keys", rep), ("errors", "error", acc.obj)):
                q = [c for c in sel if ctx.valid(eq(c.args[0], m[n])) and literal(a, c.args[1]) == "[0]"]
                if not q: self.own(a, "whether there are %s" % n)
                if not at(q[0]) > at(its[0]): a.fact(False, "the list is looked at after it is filled")
                if a.branch(ne(q[0].ret, 0)): member(obj, key, m[n], "%s are reported" % n)
                elif [c for c in sets if literal(a, c.args[1]) == key]: a.fact(False, "nothing is reported as %s" % n)
            a.fact(And(ne(m["used"], m["unused"]), ne(m["used"], m["errors"]), ne(m["unused"], m["errors"])), "three lists")
        for y in gone:
            for c in sets: a.fact(ne(c.args[2], y), "what is reported is kept")
        self.only(a, *ok, *strs)

class Text(Contract):
    """helpers for texts that grow by recorded cee_str_catf calls"""
def textlen(spec, ex, name):
    """strlen, or strcmp with the empty text, of a text that enters by identity"""
    ctx = ex.ctx; a = A(ex, True)
    def ln(p): r = zf(a, "STRLEN", p); ctx.assume(And(le(0, r), lt(r, SZ))); return r
    if name == "strlen": return lambda n, args: ln(ex.a1(args)[0])
    if name == "strcmp":
        def strcmp(n, args):
            p, q = ex.a1(args)
            if literal(a, p) == "": p, q = q, p
            if literal(a, q) != "": ctx.fail("the text is compared with the empty text", kind="own")
            r = ctx.fresh("cmp", 0, 255); ctx.assume(Iff(eq(r, 0), eq(ln(p), 0))); return r
        return strcmp
@register
class ComposeDynStmts(Sq):
    """entry after entry: an updatable column of the input with a value joins the assignments; a column with a value, or refusing null, joins the inserted columns and values"""
    fn = "compose_dyn_stmts"; views = dict(SV, cee_str_catf=Ev("cee_str_catf", nonnull=True)); loops = {("compose_dyn_stmts", 0): "loop"}; boundable = False
    builtin = textlen
    S = ("update_set", "insert_colums", "insert_values"); FIX = ("state", "json_in", "errors", "unused", "used", "stmts", "info", "data")
    def pre(self, a, inp, p):
        ctx = a.ctx; g = G(p=p, inp=inp); g.N = ctx.fresh("N", 0, 1 << 20); cv = a.rec(p, "_combo", None, "combo")
        g.fix = {n: cv.f(n) for n in self.FIX}; g.old = {n: cv.f(n) for n in self.S}; ctx.assume(Iff(eq(g.old["insert_colums"], 0), eq(g.old["insert_values"], 0))); info = g.fix["info"]; data = g.fix["data"]; ctx.assume(ne(info, 0))
        f = records(a, info, INFO, simp(add(g.N, 1)), "info"); g.var, g.col, g.nu, g.nn, g.dh = f("var_name"), f("col_name"), f("no_update"), f("not_null"), f("data.has_value")
        ctx.assume(eq(g.var.get(ctx, g.N), 0)); ctx.addfact([g.var], lambda t: Implies(And(le(0, t), lt(t, g.N)), ne(g.var.get(ctx, t), 0)))
        g.has = None if a.branch(eq(data, 0)) else records(a, data, DATA, g.N, "data")("has_value")
        return g
    def valued(self, a, g, i):
        h = ne(g.dh.get(a.ctx, i), 0); return h if g.has is None else Or(ne(g.has.get(a.ctx, i), 0), h)
    def combo(self, a, g):
        cv = a.rec(g.p, "_combo", None, "combo")
        for n in self.FIX: cv.setf(n, g.fix[n], "%s is kept" % n)
        return cv
    def loop(self, a, L):
        ctx = a.ctx; g = L.g; i = L.v("i"); a.log("calls"); a.fact(And(le(0, i), le(i, g.N)), "entry after entry"); cv = self.combo(a, g); cs = calls(a)
        if a.produce:
            g.i = i; g.nc = len(cs); g.cur = {}
            for n in self.S: v = ctx.fresh(n, 0, 1 << 47); cv.setf(n, v); ctx.assume(Iff(eq(v, 0), eq(g.old[n], 0))); g.cur[n] = v
            return
        if L.entry:
            a.fact(eq(i, 0), "from the first entry")
            for n in self.S: cv.setf(n, g.old[n], "the texts given")
            if calls(a, "cee_str_catf"): self.own(a, "nothing is added before the first entry")
            return
        a.fact(eq(i, add(g.i, 1)), "entry after entry"); k = g.i; cats = [c for c in cs[g.nc:] if c.fn == "cee_str_catf"]; gets = [c for c in cs[g.nc:] if c.fn == "cee_json_object_get"]
        for c in cs[g.nc:]:
            if c not in cats and c not in gets: self.own(a, "nothing else is done (calls %s)" % c.fn)
        col, var, val = g.col.get(ctx, k), g.var.get(ctx, k), self.valued(a, g, k)
        def joined(n, xs, fmt):
            cat = [c for c in cats if ctx.valid(eq(c.args[0], g.cur[n]))]
            if not cat: ctx.fail("%s grows" % n)
            c = cat[0]; v = vals(variadic(c) or []); ln = zf(a, "STRLEN", g.cur[n]); ctx.assume(le(0, ln)); want = fmt if a.branch(eq(ln, 0)) else "," + fmt
            if literal(a, c.args[1]) is None or len(v) != len(xs): self.own(a, "the form of an addition")
            if literal(a, c.args[1]) != want: a.fact(False, "additions are separated by commas")
            a.fact(And(*[eq(x, y) for x, y in zip(v, xs)]), "%s: this entry's names" % n); cv.setf(n, c.ret, "%s is the grown text" % n); cats.remove(c)
        def kept(n): cv.setf(n, g.cur[n], "%s is kept" % n)
        ctx.assume(Implies(eq(g.old["update_set"], 0), True))
        if a.branch(And(ne(g.cur["update_set"], 0), eq(g.nu.get(ctx, k), 0), val)):
            if not gets: self.own(a, "the member is looked up")
            for c in gets: a.fact(And(eq(c.args[0], g.inp), eq(c.args[1], col)), "the member of this column is looked up")
            if a.branch(ne(gets[0].ret, 0)): joined("update_set", (col, var), "%s=%s")
            else: kept("update_set")
        else: kept("update_set")
        if a.branch(And(ne(g.cur["insert_colums"], 0), Or(val, ne(g.nn.get(ctx, k), 0)))):
            e1 = zf(a, "STRLEN", g.cur["insert_colums"]); e2 = zf(a, "STRLEN", g.cur["insert_values"]); ctx.assume(Iff(eq(e1, 0), eq(e2, 0)))       # they grow together
            joined("insert_colums", (col,), "%s"); joined("insert_values", (var,), "%s")
        else: kept("insert_colums"); kept("insert_values")
        if cats: a.fact(False, "nothing else is added")
    def post(self, a, g, ret, inp, p):
        cv = self.combo(a, g); a.fact(eq(g.i, g.N), "every entry has its turn")
        for n in self.S: cv.setf(n, g.cur[n], "%s: the text composed" % n)

IF = {"index": I32, "var_name": P, "col_name": P, "type": U32, "data.index": I32, "data.i": I32, "data.i64": I64, "data.value": P, "data.size": U64, "data.has_value": I32, "data.is_null": I32, "no_update": U8, "not_null": U8, "no_return": U8, "no_label": U8}
def wrecords(a, p, rec, n, name, fields):
    """n records that may be written; the fields as arrays"""
    cv = a.chunk(p, simp(mul(a.tu.rec(rec).size, n)), name); s = a.tu.rec(rec).size
    return cv, {f: cv.seg(0, s, n, field(a.tu, rec, f)[1], fo=field(a.tu, rec, f)[0], name=f) for f in fields}
def wrecords_are(a, p, rec, n, name, arrs, what):
    cv = a.chunk(p, simp(mul(a.tu.rec(rec).size, n)), name); s = a.tu.rec(rec).size
    for f, x in arrs.items(): cv.setseg(0, s, n, x, field(a.tu, rec, f)[1], fo=field(a.tu, rec, f)[0], label="%s %s" % (what, f))
def preset(name):
    def make(a, c, j, p):
        g = a.ex.spec.g
        if not a.ctx.valid(eq(j, g.value)): a.ctx.fail("the value given is read", kind="own")
        if a.ctx.branch(eq(g.rc, 0)): c.value = a.fresh("number", I32); a.ex.store(p, I32, c.value)
        return g.rc
    return make
@register
class TakeMember(Sq):
    """the first free entry takes the member: name, parameter, value and type; null members take none"""
    fn = "f"; loops = {("f", 0): "loop"}; boundable = True
    views = dict(SV, cee_json_to_intx=Ev("cee_json_to_intx", make=preset("rc")), cee_json_to_str=Ev("cee_json_to_str", nonnull=True), cee_str_mk=Ev("cee_str_mk", nonnull=True, make=distinct))
    def pre(self, a, p, key, value):
        ctx = a.ctx; g = G(value=value, rc=ctx.fresh("rc", 0, 200)); cv = a.rec(p, "info_state", None, "infos", ro=True); g.state, g.info, g.N = cv.f("state"), cv.f("info"), cv.f("size"); ctx.assume(And(le(0, g.N), lt(g.N, 1 << 20), ne(g.info, 0)))
        a.chunk(key, simp(add(ctx.fresh("keylen", 0, SZ), 1)), "key", ro=True); vc = a.chunk(value, 16, "value", ro=True); g.vt = ctx.fresh("kind", 0, 10); vc.ch.cells[0] = (8, False, g.vt)
        c, g.f = wrecords(a, g.info, INFO, g.N, "info", {f: None for f in IF if field(a.tu, INFO, f)[2] is None})
        g.X = ctx.fresh("X", 0, 1 << 20); ctx.assume(le(g.X, g.N)); ctx.assume(Implies(lt(g.X, g.N), eq(g.f["var_name"].get(ctx, g.X), 0))); ctx.addfact([g.f["var_name"]], lambda t: Implies(And(le(0, t), lt(t, g.X)), ne(g.f["var_name"].get(ctx, t), 0)))
        return g
    def trap(self, a, g, *r):
        i, s, n = (kind(a, k) for k in ("i64", "string", "null"))
        return And(lt(g.X, g.N), Or(And(eq(g.vt, i), ne(g.rc, 0)), And(ne(g.vt, i), ne(g.vt, s), ne(g.vt, n))))
    def loop(self, a, L):
        g = L.g; i = L.v("i"); a.log("calls"); a.fact(And(le(0, i), le(i, g.X)), "no free entry so far"); wrecords_are(a, g.info, INFO, g.N, "info", g.f, "no entry changes:")
        if a.produce: g.at = len(calls(a))
        elif not L.entry and len(calls(a)) > g.at: self.own(a, "nothing is done about the other entries")
    def post(self, a, g, ret, p, key, value):
        ctx = a.ctx; new = dict(g.f); X = g.X; ok = []
        def put(**kw):
            for n, v in kw.items(): n = n.replace("__", "."); new[n] = new[n].store(X, v)
        if a.branch(And(lt(X, g.N), ne(g.vt, kind(a, "null")))):
            if a.branch(eq(g.vt, kind(a, "i64"))): r = self.the(a, "the number is read", "cee_json_to_intx"); put(data__i=r.value, type=a.tu.enumn["CEE_SQLITE3_INT"])
            else: r = self.the(a, "the text is read", "cee_json_to_str"); a.fact(eq(r.args[0], value), "the value given is read"); put(data__value=r.ret, type=a.tu.enumn["CEE_SQLITE3_TEXT"])
            ok.append(r); put(data__has_value=1); strs = calls(a, "cee_str_mk"); ok += strs
            col = [c for c in strs if literal(a, c.args[1]) == "%s"]; var = [c for c in strs if literal(a, c.args[1]) == "@%s"]
            if len(col) != 1 or len(var) != 1: self.own(a, "column and parameter are named")
            for c in (col[0], var[0]): a.fact(And(eq(c.args[0], g.state), eq((vals(variadic(c) or [0]) + [0])[0], key)), "named after the key, in the state")
            put(col_name=col[0].ret, var_name=var[0].ret)
        wrecords_are(a, g.info, INFO, g.N, "info", new, "entry"); a.fact(eq(ret, 0), "the iteration goes on"); self.only(a, *ok)

def infos(a, c, o, p, f):
    c.is_ = {}
    for n in ("state", "info", "size"):
        fo, t, b = field(a.tu, "info_state", n); c.is_[n] = a.ex.load(simp(add(p, fo)), t)
def mapsize(a, c, m): a.ctx.assume(And(le(0, c.ret), lt(c.ret, 1 << 20)))
def madeblock(a, c, st, n): a.ctx.assume(le(4096, c.ret))
@register
class JsonToBindInfo(Sq):
    """a zeroed list with one entry for each member and an end mark, filled by the members"""
    fn = "cee_json_to_bind_info"; views = dict(SV, cee_json_object_iterate=Ev("cee_json_object_iterate", make=infos), cee_get_state=Ev("cee_get_state", nonnull=True), cee_json_to_object=Ev("cee_json_to_object"),
                                               cee_map_size=Ev("cee_map_size", make=mapsize), cee_block_mk=Ev("cee_block_mk", nonnull=True, make=madeblock))
    def pre(self, a, inp):
        cv = a.chunk(inp, 16, "input", ro=True); g = G(o=a.ctx.fresh("object", 4096, 1 << 47)); cv.ch.cells[0] = (8, False, kind(a, "object")); cv.ch.cells[8] = (8, False, g.o); return g
    def post(self, a, g, ret, inp):
        st = self.the(a, "the object's state", "cee_get_state"); n = self.the(a, "its size", "cee_map_size"); b = self.the(a, "the list", "cee_block_mk"); it = self.the(a, "the members", "cee_json_object_iterate"); to = calls(a, "cee_json_to_object")
        self.only(a, st, n, b, it, *to)
        for c in to: a.fact(eq(c.args[0], inp), "of the input")
        os_ = [g.o] + [c.ret for c in to]
        for x in (st.args[0], n.args[0]):
            if not any(a.ctx.valid(eq(x, o)) for o in os_): a.fact(eq(x, g.o), "the input's object")
        a.fact(And(eq(b.args[0], st.ret), ge(b.args[1], mul(add(n.ret, 1), a.tu.rec(INFO).size))), "room for every member and the end mark"); a.fact(eq(ret, b.ret), "the list is returned")
        a.fact(And(eq(it.args[0], inp), eq(it.args[2], faddr(a, "f"))), "every member is taken"); a.fact(And(eq(it.is_["state"], st.ret), eq(it.is_["info"], b.ret), eq(it.is_["size"], n.ret)), "into this list")

def fmtviews(spec):
    """formatting into a local text: recorded"""
    def fmt(self, ex, f, v):
        a = A(ex, True); ctx = ex.ctx; n = ctx.fresh("fmtlen", 0, (1 << 31) - 2); ctx.ghosts["fmts"] = ctx.ghosts.get("fmts", []) + [(literal(a, f), vals(getattr(x, "v", x) for x in v.pack.args), n)]; arr = Base(ctx, "fmt", 1, True); ctx.addfact([arr], lambda t: Implies(And(le(0, t), lt(t, n)), ne(arr.get(ctx, t), 0)))
        return arr, n
    return fmt
def maxvalue(a, c, o, fmt, *r):
    c.path = lit_or(a, fmt); a.ctx.assume(Implies(eq(o, 0), eq(c.ret, 0)))
def roomy(a, c, cs, info, data, sql, status):
    r = a.ctx.find(simp(sql)); c.room = sub(r[0].size, r[1]) if r else None; chosen(a, c, cs, info, data, sql, status)
@register
class NextInt(Sq):
    """one more than the maximum found, 1 if there is none, else the result is the status"""
    fn = "cee_sqlite3_next_int"; format = fmtviews(None); views = dict(LV, cee_sqlite3_select1=Ev("cee_sqlite3_select1", make=roomy), cee_str_mk=Ev("cee_str_mk", nonnull=True, make=distinct), cee_del=Ev("cee_del"), cee_json_to_intx=Ev("cee_json_to_intx", make=lambda a, c, j, p: nextval(a, c, j, p)))
    def pre(self, a, cs, col, frm, status):
        g = G(); g.db, g.state = csrec(a, cs); g.old = a.chunk(status, 8, "status").get(0, P); return g
    def post(self, a, g, ret, cs, col, frm, status):
        ctx = a.ctx; s = self.the(a, "select", "cee_sqlite3_select1"); a.fact(And(eq(s.args[0], cs), eq(s.args[1], 0), eq(s.args[2], 0), eq(s.before, 0)), "one row, without bindings"); fm = ctx.ghosts.get("fmts", []); mk, dels = calls(a, "cee_str_mk"), calls(a, "cee_del")
        if mk:
            form, xs = literal(a, mk[0].args[1]), vals(variadic(mk[0]) or []); a.fact(And(eq(s.args[3], mk[0].ret), eq(mk[0].args[0], g.state)), "the statement made is run")
            for d in dels:
                a.fact(eq(d.args[0], mk[0].ret), "only the statement is given up")
                if calls(a).index(d) < calls(a).index(s): a.fact(False, "not before it has run")
        elif fm:
            form, xs, n = fm[-1]
            if s.room is None: self.own(a, "the statement run")
            a.fact(lt(n, s.room), "the statement is complete")
        else: self.own(a, "the statement run")
        if form != "select max(%s) as max_value %s;" or len(xs) != 2: self.own(a, "the form of the statement")
        a.fact(And(eq(xs[0], col), eq(xs[1], frm)), "the column's maximum in the rows given")
        sel = calls(a, "cee_json_select"); v = a.chunk(status, 8, "status")
        for c in sel: a.fact(eq(c.args[0], s.result), "looked up in the row")
        by = {c.path: c for c in sel}; num = calls(a, "cee_json_to_intx"); self.only(a, s, *sel, *num, *mk, *dels)
        def seen(path):
            if path not in by: self.own(a, "%s is looked up" % path)
            return ne(by[path].ret, 0)
        if a.branch(seen(".error")): v.set(0, P, s.result, "the error is the status"); a.fact(eq(ret, -1), "and -1 returned"); return
        if a.branch(seen(".max_value:n")):
            if not num: self.own(a, "the maximum is read")
            a.fact(eq(num[0].args[0], by[".max_value:n"].ret), "the maximum is read")
            if a.branch(eq(num[0].ret, 0)): a.fact(eq(ret, add(num[0].value, 1)), "one more than the maximum"); v.set(0, P, g.old, "no status"); return
        elif a.branch(seen(".max_value:!")): a.fact(eq(ret, 1), "the first number"); v.set(0, P, g.old, "no status"); return
        v.set(0, P, s.result, "what was found is the status"); a.fact(eq(ret, -1), "and -1 returned")
def nextval(a, c, j, p):
    if a.ctx.branch(eq(c.ret, 0)):
        c.value = a.ctx.fresh("number", -(1 << 31), (1 << 31) - 2); a.ex.store(p, I32, c.value)      # INT_MAX has no successor
@register
class NewDbOp(Sq):
    """a copy of the operation with bindings of its own, zeroed, one for each entry"""
    fn = "new_cee_sqlite3_db_op"; views = dict(SV, cee_block_mk_nonzero=Ev("cee_block_mk_nonzero", nonnull=True, make=lambda a, c, st, n: opblock(a, c, n)), cee_block_mk=Ev("cee_block_mk", nonnull=True, make=lambda a, c, st, n: opblock(a, c, n)))
    def pre(self, a, st, op, n):
        cv = a.rec(op, "cee_sqlite3_db_op", None, "op", ro=True); a.fact(lt(n, SZ), "a size"); return G(s=cv.f("stmts"), i=cv.f("info"), d=cv.f("data"))
    def post(self, a, g, ret, st, op, n):
        bs = calls(a, "cee_block_mk", "cee_block_mk_nonzero"); new = [b for b in bs if a.ctx.valid(eq(b.ret, ret))]; dat = [b for b in bs if b not in new]; self.only(a, *bs)
        if len(new) != 1 or len(dat) != 1: self.own(a, "two blocks")
        for b in bs: a.fact(eq(b.args[0], st), "in the state")
        cv = a.rec(ret, "cee_sqlite3_db_op", None, "new op"); cv.setf("stmts", g.s); cv.setf("info", g.i); cv.setf("data", dat[0].ret, "bindings of its own")
        if dat[0].fn != "cee_block_mk": a.fact(False, "no binding has a value yet")
        k = a.ctx.fresh("entries", 0, 1 << 20)
        a.fact(Implies(eq(n, mul(k, a.tu.rec(INFO).size)), ge(dat[0].args[1], mul(k, a.tu.rec(DATA).size))), "one binding for each entry")
def opblock(a, c, n):
    a.ctx.assume(le(4096, c.ret))
    if a.ctx.valid(eq(n, a.tu.rec("cee_sqlite3_db_op").size)): a.ctx.addchunk(Chunk(c.ret, n, "caller", False, "new op"))

# ---- opening and describing a database
def opened(a, c, file, pdb):
    c.db = a.ctx.fresh("opened", 4096, 1 << 47); a.ex.store(pdb, P, c.db); return a.ex.spec.g.open
def executed(a, c, db, sql, f, cx, perr):
    g = a.ex.spec.g; n = len(calls(a, "sqlite3_exec"))
    if n >= len(g.rc): a.ctx.fail("nothing else is run", kind="own")
    if cval(simp(perr)) != 0: a.ex.store(perr, P, a.ctx.fresh("message", 0, 1 << 47))
    return g.rc[n]
OV = dict(sqlite3_open=Ev("sqlite3_open", make=opened), sqlite3_exec=Ev("sqlite3_exec", make=executed), **{f: Ev(f) for f in ("sqlite3_errmsg", "sqlite3_close", "sqlite3_free")})
@register
class InitDb(Sq):
    """the statements are run on the database given or opened, all within one transaction if wanted; a failure stops the program"""
    fn = "cee_sqlite3_init_db"; views = OV
    def pre(self, a, dbp, file, sql, tr):
        ctx = a.ctx; g = G(cell=not a.branch(eq(dbp, 0)), open=ctx.fresh("opening", 0, 200)); g.old = a.chunk(dbp, 8, "db").get(0, P) if g.cell else 0
        g.tr = a.branch(ne(tr, 0)); g.rc = [ctx.fresh("rc%d" % i, 0, 200) for i in range(3 if g.tr else 1)]
        for p, n in ((file, "file"), (sql, "sql")):
            pass
        return g
    def ready(self, a, g): return Or(ne(g.old, 0), eq(g.open, 0)) if g.cell else eq(g.open, 0)
    def trap(self, a, g, dbp, file, sql, tr): return And(self.ready(a, g), ne(sql, 0), Or(*[ne(r, 0) for r in g.rc]))
    def post(self, a, g, ret, dbp, file, sql, tr):
        ctx = a.ctx; op, ex, cl = calls(a, "sqlite3_open"), calls(a, "sqlite3_exec"), calls(a, "sqlite3_close")
        given = g.cell and a.branch(ne(g.old, 0))
        if given:
            if op: a.fact(False, "the database given is used")
            db = g.old
        else:
            if len(op) != 1: self.own(a, "a database is opened")
            a.fact(eq(op[0].args[0], file), "the file given"); db = op[0].db
        ok = given or a.branch(eq(g.open, 0)); end = db if ok else 0
        if g.cell: a.chunk(dbp, 8, "db").set(0, P, end, "the database is handed to the caller")
        shut = not ok or not g.cell
        if len(cl) != (1 if shut else 0): a.fact(False, "a database that is not handed on is closed once, one that is stays open")
        for c in cl: a.fact(eq(c.args[0], db), "the database opened is closed")
        if not ok or a.branch(eq(sql, 0)):
            if ex: a.fact(False, "nothing is run")
            return
        want = ["begin transaction;", None, "commit;"] if g.tr else [None]
        if len(ex) != len(want): a.ctx.fail("the statements are run once")
        for c, w in zip(ex, want):
            a.fact(And(eq(c.args[0], db), eq(c.args[2], 0)), "on this database")
            if w is None: a.fact(eq(c.args[1], sql), "the statements given")
            elif literal(a, c.args[1]) is None or literal(a, c.args[1]).strip("; ").split()[0].lower() != w.split()[0].strip(";"): a.fact(False, "within one transaction")
@register
class DropAll(Sq):
    fn = "cee_sqlite3_drop_all_tables"; views = dict(cee_sqlite3_init_db=Ev("cee_sqlite3_init_db"))
    def pre(self, a, db, file): return G()
    def post(self, a, g, ret, db, file):
        c = self.the(a, "run", "cee_sqlite3_init_db"); self.only(a, c); a.fact(And(eq(c.args[0], db), eq(c.args[1], file), ne(c.args[3], 0)), "on this database, in one transaction"); t = literal(a, c.args[2]) or ""
        if "delete from sqlite_master" not in t: self.own(a, "the tables are dropped")
        if not all(k in t for k in ("'table'", "'index'", "'trigger'")): a.fact(False, "tables, indices and triggers")

# ---- inserting objects
@register
class CollectColumns(Sq):
    """the member's column and its placeholder join the statement; a value binds the next entry; null is written as such"""
    fn = "collect_colums_values"; builtin = textlen; EF = {f: t for f, t in IF.items() if f in ("var_name", "col_name", "type", "data.i", "data.i64", "data.value", "data.size", "data.has_value", "data.is_null")}
    views = dict(SV, cee_str_catf=Ev("cee_str_catf", nonnull=True), cee_str_mk=Ev("cee_str_mk", nonnull=True), cee_get_state=Ev("cee_get_state", nonnull=True))
    def pre(self, a, p, key, value):
        ctx = a.ctx; g = G(); cv = a.rec(p, "insert_columns_values", None, "columns"); g.c, g.v, g.info, g.idx = (cv.f(n) for n in ("insert_colums", "insert_values", "info", "idx")); ctx.assume(And(ne(g.c, 0), ne(g.v, 0), le(0, g.idx), lt(g.idx, 1 << 20)))
        g.e = simp(add(g.info, mul(g.idx, a.tu.rec(INFO).size))); ctx.assume(le(4096, g.info)); ev = a.rec(g.e, INFO, None, "entry"); g.f = {f: ev.f(f) for f in self.EF}
        a.chunk(key, simp(add(ctx.fresh("keylen", 0, SZ), 1)), "key", ro=True); vc = a.chunk(value, 16, "value", ro=True); g.vt = ctx.fresh("kind", 0, 10); g.x = ctx.fresh("held", 4096, 1 << 47); vc.ch.cells[0] = (8, False, g.vt); vc.ch.cells[8] = (8, False, g.x); g.num = None
        if a.branch(eq(g.vt, kind(a, "i64"))): b = a.rec(g.x, "cee_boxed", None, "number", ro=True); g.num = b.f("_.i64")
        elif a.branch(eq(g.vt, kind(a, "string"))): a.chunk(g.x, simp(add(ctx.fresh("textlen", 0, SZ), 1)), "text", ro=True)
        return g
    def trap(self, a, g, *r): return Not(Or(*[eq(g.vt, kind(a, k)) for k in ("i64", "string", "null")]))
    def post(self, a, g, ret, p, key, value):
        ctx = a.ctx; cats = calls(a, "cee_str_catf"); ln = zf(a, "STRLEN", g.c); ctx.assume(le(0, ln)); sep = 32 if a.branch(eq(ln, 0)) else 44; cv = a.rec(p, "insert_columns_values", None, "columns"); ev = a.rec(g.e, INFO, None, "entry")
        null = a.branch(eq(g.vt, kind(a, "null"))); ok = list(cats) + calls(a, "cee_str_mk") + calls(a, "cee_get_state")
        def joined(cur, forms, fld, named):
            x = [c for c in cats if ctx.valid(eq(c.args[0], cur))]
            if len(x) != 1: ctx.fail("one addition to %s" % fld)
            v = vals(variadic(x[0]) or []); fm = literal(a, x[0].args[1])
            if fm is None or not v or len(v) != (2 if named else 1): self.own(a, "the form of an addition")
            if fm != forms: a.fact(False, "the form of an addition to %s" % fld)
            a.fact(eq(v[0], sep), "separated by commas, the first one by a blank")
            if named: a.fact(eq(v[1], key), "the key's name")
            cv.setf(fld, x[0].ret, "%s is the grown text" % fld)
        joined(g.c, "%c%s", "insert_colums", True); joined(g.v, "%cnull" if null else "%c@%s", "insert_values", not null)
        if len(cats) != 2: self.own(a, "two additions")
        cv.setf("info", g.info); new = dict(g.f)
        if null: cv.setf("idx", g.idx, "null takes no entry")
        else:
            cv.setf("idx", simp(add(g.idx, 1)), "the next entry is used"); mk = [c for c in calls(a, "cee_str_mk") if literal(a, c.args[1]) == "@%s"]
            if len(mk) != 1: self.own(a, "the parameter is named")
            a.fact(eq((vals(variadic(mk[0]) or [0]) + [0])[0], key), "after the key")
            new.update({"var_name": mk[0].ret, "col_name": key, "data.has_value": 1})
            if g.num is not None: new.update({"type": a.tu.enumn["CEE_SQLITE3_INT64"], "data.i64": g.num})
            else: new.update({"type": a.tu.enumn["CEE_SQLITE3_TEXT"], "data.value": g.x})
        for f, v in new.items(): ev.setf(f, v, "entry %s" % f)
        a.fact(eq(ret, 0), "the iteration goes on"); self.only(a, *ok)
@register
class InsertJsonArray(Sq):
    fn = "cee_sqlite3_insert_json_array"; views = dict(SV, cee_json_array_iterate=Ev("cee_json_array_iterate", make=lambda a, c, j, p, f: setattr(c, "m", {n: a.ex.load(simp(add(p, field(a.tu, "insert_more_ctx", n)[0])), P) for n in ("table_name", "cs")})))
    def pre(self, a, cs, table, array): return G()
    def post(self, a, g, ret, cs, table, array):
        c = self.the(a, "every object is inserted", "cee_json_array_iterate"); self.only(a, c); a.fact(And(eq(c.args[0], array), eq(c.args[2], faddr(a, "insert_one_json_object")), eq(c.m["table_name"], table), eq(c.m["cs"], cs), eq(ret, c.ret)), "into the table, object after object")
class Join(Sq):
    arr = False
    def make(a, c, *r):
        p = r[1] if a.ex.spec.arr else r[0]; c.m = {n: a.ex.load(simp(add(p, field(a.tu, "join_ctx", n)[0])), P) for n in ("cs", "sql", "info", "data", "key")}
    views = dict(SV, cee_list_iterate=Ev("cee_list_iterate", make=make), join_one=Ev("join_one", make=make), cee_json_to_array=Ev("cee_json_to_array"))
    def pre(self, a, *r): return G()
    def post(self, a, g, ret, cs, json, info, data, sql, key):
        c = self.the(a, "join", "cee_list_iterate" if self.arr else "join_one"); to = calls(a, "cee_json_to_array"); self.only(a, c, *to)
        for n, v in dict(cs=cs, info=info, data=data, sql=sql, key=key).items(): a.fact(eq(c.m[n], v), "the join is given its %s" % n)
        if self.arr:
            if len(to) != 1: self.own(a, "the array's elements")
            a.fact(And(eq(to[0].args[0], json), eq(c.args[0], to[0].ret), eq(c.args[2], faddr(a, "join_one"))), "every element is joined")
        else: a.fact(eq(c.args[1], json), "the object is joined")
register(type("JoinArray", (Join,), dict(fn="cee_sqlite3_json_array_join_table", arr=True))); register(type("JoinObject", (Join,), dict(fn="cee_sqlite3_json_object_join_table")))

def collected(a, c, o, p, f):
    c.m, c.n = {}, {}
    for n in ("insert_colums", "insert_values", "info", "idx"):
        fo, t, b = field(a.tu, "insert_columns_values", n); c.m[n] = a.ex.load(simp(add(p, fo)), t)
        if n[:6] == "insert": c.n[n] = a.ctx.fresh(n, 4096, 1 << 47); a.ex.store(simp(add(p, fo)), P, c.n[n])
    a.ctx.assume(ne(c.n["insert_colums"], c.n["insert_values"]))
def textblock(a, c, st, n): a.ctx.assume(le(4096, c.ret)); c.ch = Chunk(c.ret, n, "gc", False, "statement"); a.ctx.addchunk(c.ch)
def printed(a, c, st, pbuf, plen, j, f):
    a.ex.store(pbuf, P, a.ctx.fresh("printed", 4096, 1 << 47)); a.ex.store(plen, U64, a.ctx.fresh("plen", 0, SZ))
@register
class InsertOne(Sq):
    """one statement with the columns and placeholders of this object, run once with the entries bound; all it made is given up afterwards"""
    fn = "insert_one_json_object"
    views = dict(SV, cee_state_mk=Ev("cee_state_mk", nonnull=True, make=distinct), cee_str_mk=Ev("cee_str_mk", nonnull=True, make=distinct), cee_json_to_object=Ev("cee_json_to_object"), cee_map_size=Ev("cee_map_size", make=mapsize), cee_block_mk=Ev("cee_block_mk", nonnull=True, make=madeblock),
                 cee_block_mk_nonzero=Ev("cee_block_mk_nonzero", nonnull=True, make=textblock), cee_json_object_iterate=Ev("cee_json_object_iterate", make=collected), cee_sqlite3_insert=Ev("cee_sqlite3_insert"), cee_json_asprint=Ev("cee_json_asprint", make=printed), cee_del=Ev("cee_del"))
    def format(self, ex, f, v):
        a = A(ex, True); ctx = ex.ctx; k = (literal(a, f), [simp(x) if not isinstance(x, (int, float)) else x for x in vals(getattr(x, "v", x) for x in v.pack.args)]); fs = ctx.ghosts.get("fmts", [])
        for l, xs, n, arr in fs:
            if l == k[0] and len(xs) == len(k[1]) and all(ctx.valid(eq(x, y)) for x, y in zip(xs, k[1])): ctx.ghosts["fmts"] = fs + [(l, xs, n, arr)]; return arr, n
        n = ctx.fresh("fmtlen", 0, (1 << 31) - 2); arr = Base(ctx, "fmt", 1, True); ctx.addfact([arr], lambda t: Implies(And(le(0, t), lt(t, n)), ne(arr.get(ctx, t), 0)))
        ctx.ghosts["fmts"] = fs + [(k[0], k[1], n, arr)]; return arr, n
    def pre(self, a, p, one, idx):
        cv = a.rec(p, "insert_more_ctx", None, "more", ro=True); return G(table=cv.f("table_name"), cs=cv.f("cs"))
    def post(self, a, g, ret, p, one, idx):
        ctx = a.ctx; it = self.the(a, "the members", "cee_json_object_iterate"); ins = self.the(a, "insert", "cee_sqlite3_insert"); st = self.the(a, "a state", "cee_state_mk"); cs = calls(a); at = lambda c: cs.index(c); strs = calls(a, "cee_str_mk"); b = self.the(a, "the entries", "cee_block_mk"); sz = self.the(a, "the size", "cee_map_size"); to = calls(a, "cee_json_to_object")
        a.fact(And(eq(it.args[0], one), eq(it.args[2], faddr(a, "collect_colums_values")), eq(it.m["info"], b.ret), eq(it.m["idx"], 0)), "every member is collected from the first entry on")
        for n in ("insert_colums", "insert_values"):
            s = [c for c in strs if ctx.valid(eq(c.ret, it.m[n]))]
            if not s or literal(a, s[0].args[1]) != "": self.own(a, "%s starts empty" % n)
        for c in to: a.fact(eq(c.args[0], one), "of this object")
        if not to or not ctx.valid(eq(to[0].ret, sz.args[0])): self.own(a, "the object's size")
        a.fact(ge(b.args[1], mul(add(sz.ret, 1), a.tu.rec(INFO).size)), "an entry for every member and the end mark")
        fm = [x for x in ctx.ghosts.get("fmts", []) if x[0] == "insert into %s (%s) values (%s);"]; tb = [c for c in calls(a, "cee_block_mk_nonzero") if ctx.valid(eq(c.ret, ins.args[3]))]
        if not fm or len(tb) != 1: self.own(a, "the form of the statement")
        l, xs, n, arr = fm[-1]; a.fact(And(eq(xs[0], g.table), eq(xs[1], it.n["insert_colums"]), eq(xs[2], it.n["insert_values"])), "the table, the columns, the placeholders"); a.fact(lt(n, tb[0].args[1]), "the statement is complete")
        a.fact(And(eq(ins.args[0], g.cs), eq(ins.args[1], b.ret), eq(ins.args[2], 0)), "it is run with the entries bound")
        if not at(it) < at(ins): a.fact(False, "it is run after the members are collected")
        dels = calls(a, "cee_del")
        if len(dels) != 1: self.own(a, "the state is given up")
        a.fact(eq(dels[0].args[0], st.ret), "the state made here is given up")
        if at(dels[0]) < at(ins): a.fact(False, "not before the statement has run")
        self.only(a, it, ins, st, b, sz, *to, *strs, *tb, *dels, *calls(a, "cee_json_asprint")); a.fact(eq(ret, 0), "the iteration goes on")

MUT = {"data.i": "i", "data.i64": "i64", "data.value": "value", "data.size": "size"}
def member_of(a, c, o, col):
    g = a.ex.spec.g; ctx = a.ctx; a.ctx.assume(Or(eq(c.ret, 0), le(4096, c.ret))); c.kind = None
    if not ctx.branch(eq(c.ret, 0)): c.kind = ctx.fresh("kind", 0, 10); ch = Chunk(c.ret, 16, "caller", True, "member"); ch.cells[0] = (8, False, c.kind); ctx.addchunk(ch)
def int_of(ty):
    def make(a, c, j, p):
        if a.ctx.branch(eq(c.ret, 0)): c.value = a.fresh("number", ty); a.ex.store(p, ty, c.value)
    return make
@register
class JoinOne(Sq):
    """entry after entry with a value takes the object's member of its column; then the statement is run with them; a member that is missing, or no integer or text, is an error of the object"""
    fn = "join_one"; loops = {("join_one", 0): "loop"}; boundable = False
    views = dict(LV, cee_json_object_get=Ev("cee_json_object_get", make=member_of), cee_json_to_intx=Ev("cee_json_to_intx", make=int_of(I32)), cee_json_to_i64x=Ev("cee_json_to_i64x", make=int_of(I64)), cee_json_to_str=Ev("cee_json_to_str", nonnull=True))
    def pre(self, a, p, elem, idx):
        ctx = a.ctx; g = G(i=None, elem=elem); cv = a.rec(p, "join_ctx", None, "join", ro=True); g.cs, g.sql, g.info, g.data, g.key = (cv.f(n) for n in ("cs", "sql", "info", "data", "key")); g.N = ctx.fresh("N", 0, 1 << 20); ctx.assume(ne(g.info, 0))
        c, g.f = wrecords(a, g.info, INFO, simp(add(g.N, 1)), "info", list(MUT) + ["var_name", "col_name", "type", "data.has_value", "data.is_null"]); g.hasd = not a.branch(eq(g.data, 0)); g.d = {}
        if g.hasd: c, g.d = wrecords(a, g.data, DATA, g.N, "data", list(MUT.values()) + ["has_value", "is_null"])
        v = g.f["var_name"]; ctx.assume(eq(v.get(ctx, g.N), 0)); ctx.addfact([v], lambda t: Implies(And(le(0, t), lt(t, g.N)), ne(v.get(ctx, t), 0)))
        return g
    def bindings(self, a, g, f, d, what):
        wrecords_are(a, g.info, INFO, simp(add(g.N, 1)), "info", f, what)
        if g.hasd: wrecords_are(a, g.data, DATA, g.N, "data", d, what)
    def item(self, a, g, k):
        """which binding entry k uses: the data's, the default, none"""
        if g.hasd and a.branch(ne(g.d["has_value"].get(a.ctx, k), 0)): return "data"
        return "info" if a.branch(ne(g.f["data.has_value"].get(a.ctx, k), 0)) else None
    def loop(self, a, L):
        ctx = a.ctx; g = L.g; i = L.v("i"); a.log("calls"); a.fact(And(le(0, i), le(i, g.N)), "entry after entry"); cs = calls(a)
        if a.produce:
            g.i = i; g.nc = len(cs); g.cf, g.cd = dict(g.f), dict(g.d)
            for m, n in MUT.items():
                t = field(a.tu, INFO, m)[1]; g.cf[m] = a.array(m, t)
                if g.hasd: g.cd[n] = a.array(n, t)
            self.bindings(a, g, g.cf, g.cd, "the bindings so far:"); return
        if L.entry: a.fact(eq(i, 0), "from the first entry"); self.bindings(a, g, g.f, g.d, "no binding changes before:"); return
        k = g.i; a.fact(eq(i, add(k, 1)), "entry after entry"); new = cs[g.nc:]; it = self.item(a, g, k); f, d = dict(g.cf), dict(g.cd)
        gets = [c for c in new if c.fn == "cee_json_object_get"]; reads = [c for c in new if c.fn in ("cee_json_to_intx", "cee_json_to_i64x", "cee_json_to_str")]
        for c in new:
            if c not in gets and c not in reads: self.own(a, "nothing else is done (calls %s)" % c.fn)
        if it is not None:
            val = self.member(a, g, gets, k); put = lambda n, v: d.__setitem__(n, d[n].store(k, v)) if it == "data" else f.__setitem__("data." + n, f["data." + n].store(k, v))
            for c in reads: a.fact(eq(c.args[0], val.ret), "the member's value is read")
            if val.kind is None: a.fact(False, "a missing member is an error")
            if a.branch(eq(val.kind, kind(a, "i64"))):
                for fn, n in (("cee_json_to_intx", "i"), ("cee_json_to_i64x", "i64")):
                    r = [c for c in reads if c.fn == fn]
                    if len(r) != 1: a.ctx.fail("the number is bound as both kinds of integer")
                    if a.branch(eq(r[0].ret, 0)): put(n, r[0].value)
                    elif n == "i": a.fact(False, "a number that cannot be read is an error")
            else:
                a.fact(eq(val.kind, kind(a, "string")), "only integers and texts are bound"); r = [c for c in reads if c.fn == "cee_json_to_str"]
                if len(r) != 1: self.own(a, "the text is read")
                put("value", r[0].ret); put("size", 0)
        self.bindings(a, g, f, d, "entry's binding:")
    def member(self, a, g, gets, k):
        if len(gets) != 1: self.own(a, "the member is looked up")
        a.fact(And(eq(gets[0].args[0], g.elem), eq(gets[0].args[1], g.f["col_name"].get(a.ctx, k))), "the object's member of this column"); return gets[0]
    def post(self, a, g, ret, p, elem, idx):
        ctx = a.ctx; cs = calls(a); run = calls(a, "cee_sqlite3_select1", "cee_sqlite3_select"); err = calls(a, "cee_json_object_set_strf"); sel = calls(a, "cee_json_select")
        if not run:
            new = cs[g.nc:]; k = g.i; it = self.item(a, g, k)
            if it is None: a.fact(False, "the statement is run")
            val = self.member(a, g, [c for c in new if c.fn == "cee_json_object_get"], k); a.fact(lt(k, g.N), "an entry")
            if val.kind is not None:
                bad = [c for c in new if c.fn == "cee_json_to_intx"]; no = And(eq(val.kind, kind(a, "i64")), ne(bad[0].ret, 0)) if bad else False
                a.fact(Or(no, And(ne(val.kind, kind(a, "i64")), ne(val.kind, kind(a, "string")))), "only a member that cannot be bound is refused")
            if len(err) != 1: a.ctx.fail("it is reported")
            a.fact(And(eq(err[0].args[0], elem), ne(ret, 0)), "in the object, and the iteration stops")
            if literal(a, err[0].args[1]) != "error": a.fact(False, "as its error")
        else:
            a.fact(eq(g.i, g.N), "every entry has its turn")
            if len(run) != 1 or err: self.own(a, "the statement is run once")
            r = run[0]; a.fact(And(eq(r.args[0], g.cs), eq(r.args[1], g.info), eq(r.args[2], g.data), eq(r.args[3], g.sql)), "the statement is run with these bindings"); sets = calls(a, "cee_json_object_set"); e = [c for c in sel if c.path == ".error"]
            if not e: self.own(a, "errors are looked for")
            for c in e: a.fact(eq(c.args[0], r.result), "in the result")
            if a.branch(eq(g.key, 0)):
                a.fact(And(r.fn == "cee_sqlite3_select1", eq(r.before, elem)), "the row's columns join the object")
                if sets: a.fact(False, "nothing else is set")
            else:
                a.fact(And(r.fn == "cee_sqlite3_select", eq(r.before, 0)), "the rows make a fresh array")
                if len(sets) != 1: a.ctx.fail("the rows become a member")
                a.fact(And(eq(sets[0].args[0], elem), eq(sets[0].args[1], g.key), eq(sets[0].args[2], r.result)), "the rows become the member of this name")
            a.fact(Iff(ne(ret, 0), ne(e[0].ret, 0)), "an error stops the iteration"); self.only(a, r, *sets, *sel, *[c for c in cs[:cs.index(r)]])
        a.chunk(g.info, simp(mul(a.tu.rec(INFO).size, add(g.N, 1))), "info")
        if g.hasd: a.chunk(g.data, simp(mul(a.tu.rec(DATA).size, g.N)), "data")

# ---- small ones
def pstmt(a, c, db, sql, n, pp, tail):
    r = a.ctx.find(simp(sql)); c.room = sub(r[0].size, r[1]) if r else None; c.stmt = a.ctx.fresh("stmt", 0, 1 << 47); a.ex.store(pp, P, c.stmt)
@register
class GetPragma(Sq):
    """the variable's value: the first column of the one row; the statement is finalized"""
    fn = "cee_sqlite3_get_pragma_variable"; format = fmtviews(None); views = dict(sqlite3_prepare_v2=Ev("sqlite3_prepare_v2", make=pstmt), sqlite3_step=Ev("sqlite3_step"), sqlite3_column_int=Ev("sqlite3_column_int"), sqlite3_finalize=Ev("sqlite3_finalize"))
    def pre(self, a, db, name): return G()
    def post(self, a, g, ret, db, name):
        p = self.the(a, "prepare", "sqlite3_prepare_v2"); s = self.the(a, "step", "sqlite3_step"); v = self.the(a, "read", "sqlite3_column_int"); f = self.the(a, "finalize", "sqlite3_finalize"); self.only(a, p, s, v, f); o = [calls(a).index(c) for c in (p, s, v, f)]
        a.fact(And(eq(p.args[0], db), eq(s.args[0], p.stmt), eq(v.args[0], p.stmt), eq(v.args[1], 0), eq(f.args[0], p.stmt), eq(ret, v.ret)), "the statement's first column is returned")
        if o != sorted(o): a.fact(False, "prepared, stepped, read, finalized")
        fm = a.ctx.ghosts.get("fmts", [])
        if not fm or fm[0][0] != "PRAGMA %s;": self.own(a, "the form of the statement")
        a.fact(eq(fm[0][1][0], name), "of this variable")
class ExecText(Sq):
    format = fmtviews(None)
    def pre(self, a, cs, name, buf, n, err):
        g = G(); g.db, g.state = csrec(a, cs); a.fact(And(lt(0, n), lt(n, SZ)), "a buffer"); a.chunk(buf, n, "buffer"); g.rc = [a.ctx.fresh("rc", 0, 200)]; return g
@register
class Detach(ExecText):
    fn = "cee_sqlite3_detach_db"; views = dict(sqlite3_exec=Ev("sqlite3_exec"))
    def post(self, a, g, ret, cs, name, buf, n, err):
        c = self.the(a, "run", "sqlite3_exec"); self.only(a, c); fm = a.ctx.ghosts.get("fmts", [])
        a.fact(And(eq(c.args[0], g.db), eq(c.args[1], buf), eq(c.args[4], err), eq(ret, c.ret)), "the statement is run, its status returned")
        if len(fm) != 1 or not (fm[0][0] or "").startswith("detach database"): self.own(a, "the form of the statement")
        a.fact(eq(fm[0][1][0], name), "the database of this name is detached"); a.chunk(buf, n, "buffer")
@register
class Attach(ExecText):
    """the database file beside the open one (same directory) is attached under the name; the open database has a file"""
    fn = "cee_sqlite3_attach_db"; views = dict(sqlite3_exec=Ev("sqlite3_exec"), sqlite3_db_filename=Ev("sqlite3_db_filename", nonnull=True))
    def pre(self, a, cs, file, name, buf, n, err): return super().pre(a, cs, name, buf, n, err)
    def builtin(self, ex, fn):
        if fn != "strrchr": return None
        def strrchr(n, args):
            p, c = ex.ev(args[0]), ex.ev(args[1]); g = ex.spec.g
            if cval(simp(c)) != 47: ex.ctx.fail("the directory ends at the last slash", kind="own")
            g.dir = (p, ex.ctx.fresh("last_slash", 0, 1 << 20)); return simp(add(p, g.dir[1]))
        return strrchr
    def post(self, a, g, ret, cs, file, name, buf, n, err):
        c = self.the(a, "run", "sqlite3_exec"); f = self.the(a, "file name", "sqlite3_db_filename"); self.only(a, c, f); fm = a.ctx.ghosts.get("fmts", [])
        a.fact(And(eq(c.args[0], g.db), eq(c.args[1], buf), eq(c.args[4], err), eq(ret, c.ret)), "the statement is run, its status returned")
        a.fact(And(eq(f.args[0], g.db), eq(f.args[1], 0)), "the main database's file")
        if len(fm) != 1 or not re.match(r"attach database [\"']%\.\*s/%s[\"'] as %s;?$", fm[0][0] or "") or not hasattr(g, "dir"): self.own(a, "the form of the statement")
        x = fm[0][1]; a.fact(And(eq(g.dir[0], f.ret), eq(x[0], g.dir[1]), eq(x[1], f.ret), eq(x[2], file), eq(x[3], name)), "the file of this name in the same directory, under this name"); a.chunk(buf, n, "buffer")
@register
class SqliteInit(Contract):
    """the names (cut to their fields), the state and the connection are those given"""
    fn = "cee_sqlite3_init"; props = ("C23",); nocall = True
    def pre(self, a, x, name, path, state, db):
        g = G(); cv = a.chunk(x, a.tu.rec("cee_sqlite3").size, "x"); o = lambda f: a.tu.off("cee_sqlite3", f); cv.seg(0, 1, o("db"), CH, name="texts"); cv.get(o("db"), P); cv.get(o("state"), P); g.t = [text_in(a, p, s, SZ) for p, s in ((name, "name"), (path, "path"))]; return g
    def post(self, a, g, ret, x, name, path, state, db):
        ctx = a.ctx; cv = a.chunk(x, a.tu.rec("cee_sqlite3").size, "x"); o = lambda f: a.tu.off("cee_sqlite3", f)
        for p, s, (t, n) in ((name, "name", g.t[0]), (path, "path", g.t[1])): text_in(a, p, s)
        for f, size, (t, n) in (("db_name", o("db_path") - o("db_name"), g.t[0]), ("db_path", o("db") - o("db_path"), g.t[1])):
            arr = cv.seg(o(f), 1, size, CH, name=f); w = simp(If(lt(n, size), n, size - 1)); k = ctx.fresh("k")
            a.fact(eq(arr.get(ctx, w), 0), f + " is terminated inside the field"); a.fact(Implies(And(le(0, k), lt(k, w)), eq(arr.get(ctx, k), t.get(ctx, k))), f + " is the text given")
        a.fact(And(eq(cv.get(o("state"), P), state), eq(cv.get(o("db"), P), db)), "the state and the connection are those given")
