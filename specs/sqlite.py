"""sqlite3/cee-sqlite3.c (C23): which calls are made on the SQL library, with which arguments.  The library itself enters
as recorded calls with arbitrary results."""
from .base import *
from .str import *
from .json import kind
from .jobj import anyjson

INFO, DATA = "cee_sqlite3_bind_info", "cee_sqlite3_bind_data"
OK_, ERR, ROW, DONE = 0, 1, 100, 101
BINDS = ("sqlite3_bind_int", "sqlite3_bind_int64", "sqlite3_bind_text", "sqlite3_bind_blob", "sqlite3_bind_null")
B_INT, B_INT64, B_TEXT, B_BLOB, B_NULL = range(5)
def bound(a, c, stmt, idx, *r):
    k = BINDS.index(c.fn); v = n = 0
    if k in (B_INT, B_INT64): v = r[0]
    elif k in (B_TEXT, B_BLOB):
        v, n = r[0], r[1]
        f = a.ctx.find(simp(v)); lit = getattr(f[0], "text", None) if f else None
        if lit is not None and lit[cval(simp(f[1])):][:1] == [0] and k == B_TEXT: n = 0
        v = If(eq(n, 0), 0, v)
    log_append(a.ctx, "bind", stmt=stmt, fn=k, idx=idx, val=v, size=n)
def prepared(a, c, db, sql, n, pp, tail):
    c.stmt = a.ctx.fresh("stmt", 0, 1 << 47)
    a.ex.store(pp, P, c.stmt)
def pindex(a, c, stmt, name):
    ctx = a.ctx; g = a.ex.spec.g
    a.fact if False else None
    r = g.IX.get(ctx, name); ctx.assume(And(le(0, r), le(r, g.total)))
    if not ctx.valid(eq(stmt, g.stmt())): ctx.fail("parameters are those of the prepared statement", kind="own")
    return r
def pcount(a, c, stmt):
    if not a.ctx.valid(eq(stmt, a.ex.spec.g.stmt())): a.ctx.fail("parameters are those of the prepared statement", kind="own")
    return a.ex.spec.g.total
V = {f: Ev(f, make=bound) for f in BINDS}
V.update({f: Ev(f) for f in ("sqlite3_step", "sqlite3_finalize", "sqlite3_errmsg", "sqlite3_bind_parameter_name", "get_stmt_type", "cee_json_set_error", "sqlite3_changes", "sqlite3_last_insert_rowid")})
V["sqlite3_prepare_v2"] = Ev("sqlite3_prepare_v2", make=prepared)
V["sqlite3_bind_parameter_index"] = Ev("sqlite3_bind_parameter_index", make=pindex)
V["sqlite3_bind_parameter_count"] = Ev("sqlite3_bind_parameter_count", make=pcount)
V["cee_json_object_mk"] = Ev("cee_json_object_mk", nonnull=True)

def records(a, p, rec, n, name):
    cv = a.chunk(p, simp(mul(a.tu.rec(rec).size, n)), name, ro=True)
    def f(path, ty=None):
        o, t, b = field(a.tu, rec, path)
        return cv.seg(0, a.tu.rec(rec).size, n, t, fo=o, name=path)
    return f
def csrec(a, cs):
    cv = a.chunk(cs, a.tu.rec("cee_sqlite3").size, "cs", ro=True)
    o = lambda f: a.tu.off("cee_sqlite3", f)
    return cv.get(o("db"), P), cv.get(o("state"), P)
def jcell(a, p, name):
    """an optional in/out JSON pointer"""
    g = G(p=p, nz=not a.branch(eq(p, 0)))
    if g.nz: g.old = a.chunk(p, 8, name).get(0, P)
    return g

@register
class BindRunSql(Contract):
    """IX: the statement's index of a parameter name (0: no such parameter); NAMED: the indices some name of the list has,
    WIT: the first of these names; CNT[i]: the number of bindings for the names before i"""
    fn = "cee_sqlite3_bind_run_sql"; props = ("C23",); nocall = True; boundable = False; views = V
    loops = {("cee_sqlite3_bind_run_sql", 0): "names", ("cee_sqlite3_bind_run_sql", 1): "check"}
    def pre(self, a, cs, info, data, sql, pp, ret):
        ctx = a.ctx
        g = G(K=ctx.fresh("K", 0, SZ), J=ctx.fresh("J", 0, SZ), N=ctx.fresh("N", 0, 1 << 20))
        g.db, g.state = csrec(a, cs); ctx.assume(And(ne(g.db, 0), ne(g.state, 0)))
        text_in(a, sql, "sql", 1 << 30)
        g.info = not a.branch(eq(info, 0)); g.data = not a.branch(eq(data, 0))
        g.total = ctx.fresh("total", 0, 1 << 20); g.IX = Base(ctx, "IX", 4, True)
        if g.info:
            f = records(a, info, INFO, simp(add(g.N, 1)), "info")
            g.name, g.type, g.nn = f("var_name"), f("type"), f("not_null")
            g.i = {k: f("data." + k) for k in ("i", "i64", "value", "size", "has_value", "is_null")}
            ctx.assume(eq(g.name.get(ctx, g.N), 0))
            ctx.addfact([g.name], lambda t: Implies(And(le(0, t), lt(t, g.N)), ne(g.name.get(ctx, t), 0)))
            ctx.addfact([g.type], lambda t: Implies(And(le(0, t), lt(t, g.N)), And(le(1, g.type.get(ctx, t)), le(g.type.get(ctx, t), 4))))
            ctx.addfact([g.i["size"]], lambda t: lt(g.i["size"].get(ctx, t), SZ))
            if g.data:
                d = records(a, data, DATA, g.N, "data")
                g.d = {k: d(k) for k in ("i", "i64", "value", "size", "has_value", "is_null")}
                ctx.addfact([g.d["size"]], lambda t: lt(g.d["size"].get(ctx, t), SZ))
            g.NAMED = BBase(ctx, "NAMED"); g.WIT = Base(ctx, "WIT", 8, False)
            def named(t):
                w = g.WIT.get(ctx, t)
                return Implies(g.NAMED.get(ctx, t), And(le(0, w), lt(w, g.N), eq(g.IX.get(ctx, g.name.get(ctx, w)), add(t, 1))))
            ctx.addfact([g.NAMED], named)
            g.CNT = Base(ctx, "CNT", 8, False); ctx.assume(eq(g.CNT.get(ctx, 0), 0))
            g.log0 = a.log("bind")
        g.pp = not a.branch(eq(pp, 0))
        if g.pp: a.chunk(pp, 8, "stmt_pp")
        g.ret = jcell(a, ret, "ret")
        g.stmt = lambda: calls(a, "sqlite3_prepare_v2")[0].stmt
        return g
    def step(self, a, g, i):
        """name i is defined here: its index is named, and CNT goes on"""
        ctx = a.ctx; has, fn, val, size = self.event(a, g, i); ix = self.idx(a, g, i)
        ctx.assume(Implies(gt(ix, 0), And(g.NAMED.get(ctx, simp(sub(ix, 1))), le(g.WIT.get(ctx, simp(sub(ix, 1))), i))))
        ctx.assume(eq(g.CNT.get(ctx, simp(add(i, 1))), add(g.CNT.get(ctx, i), If(has, 1, 0))))
    def idx(self, a, g, i):
        r = g.IX.get(a.ctx, g.name.get(a.ctx, i)); a.ctx.assume(And(le(0, r), le(r, g.total)))
        return r
    def event(self, a, g, i):
        """(is something bound, how, value, size) for name i"""
        ctx = a.ctx; tu = a.tu
        own = ne(g.d["has_value"].get(ctx, i), 0) if g.data else False
        dfl = ne(g.i["has_value"].get(ctx, i), 0)
        ins = And(eq(self.stype(a), tu.enumn["INSERT"]), ne(g.nn.get(ctx, i), 0))
        src = lambda k: If(own, g.d[k].get(ctx, i), g.i[k].get(ctx, i)) if g.data else g.i[k].get(ctx, i)
        given = Or(own, dfl)
        null = And(given, ne(src("is_null"), 0), eq(g.nn.get(ctx, i), 0))
        t = g.type.get(ctx, i); T_ = lambda k: eq(t, tu.enumn["CEE_SQLITE3_" + k])
        fn = If(null, B_NULL, If(T_("INT"), B_INT, If(T_("INT64"), B_INT64, If(T_("TEXT"), B_TEXT, B_BLOB))))
        sz = If(Or(null, Not(given), T_("INT"), T_("INT64")), 0, If(And(T_("TEXT"), eq(src("size"), 0)), -1, src("size")))
        val = If(Or(null, Not(given)), 0, If(T_("INT"), src("i"), If(T_("INT64"), src("i64"), If(eq(sz, 0), 0, src("value")))))
        return And(gt(self.idx(a, g, i), 0), Or(given, ins)), fn, val, sz
    def stype(self, a):
        cs = calls(a, "get_stmt_type")
        if len(cs) != 1: a.ctx.fail("the kind of statement is determined", kind="own")
        return cs[0].ret
    def logged(self, a, g, upto, what):
        """the binding of name K < upto is in the log at CNT[K]; there are CNT[upto] bindings"""
        ctx = a.ctx; l = ctx.logs.setdefault("bind", Log()); a.logs_touched.add("bind")
        if a.produce:
            l = Log(simp(add(g.log0.n, g.CNT.get(ctx, upto))), {f: Base(ctx, "log_bind_" + f, 8, False, False) for f in ("stmt", "fn", "idx", "val", "size")})
            ctx.logs["bind"] = l
        else: a.fact(eq(l.n, add(g.log0.n, g.CNT.get(ctx, upto))), what + ": one binding per name that has a value, no more")
        has, fn, val, size = self.event(a, g, g.K); at = simp(add(g.log0.n, g.CNT.get(ctx, g.K)))
        c = And(lt(g.K, upto), has)
        a.fact(Implies(c, lt(g.CNT.get(ctx, g.K), g.CNT.get(ctx, upto))), what + ": in order")
        ev = lambda f: l.get(ctx, f, at)
        a.fact(Implies(c, And(eq(ev("stmt"), g.stmt()), eq(ev("idx"), self.idx(a, g, g.K)))), what + ": the name's own parameter")
        a.fact(Implies(c, And(eq(ev("fn"), fn), eq(ev("size"), size))), what + ": as the declared type")
        a.fact(Implies(c, eq(ev("val"), val)), what + ": the value given for the name")
        a.fact(le(g.CNT.get(ctx, upto), upto), what + ": at most one each")
    def flags(self, a, L, i):
        g = L.g; ctx = a.ctx
        b = a.chunk(L.v("bound"), g.total, "bound", kind="local").seg(0, 1, g.total, CH, name="bound")
        a.forall([b], lambda j: Implies(And(le(0, j), lt(j, g.total)), Iff(ne(b.get(ctx, j), 0), And(g.NAMED.get(ctx, j), lt(g.WIT.get(ctx, j), i)))), "the parameters named so far are marked")
        return b
    def quiet(self, a, g, what):
        cs = calls(a)
        if a.produce: g.nc = len(cs)
        elif hasattr(g, "nc"):
            for c in cs[g.nc:]:
                if c.fn not in BINDS + ("sqlite3_bind_parameter_index", "sqlite3_bind_parameter_name"): a.ctx.fail("%s: only binding (calls %s)" % (what, c.fn), kind="own")
    def names(self, a, L):
        g = L.g; ctx = a.ctx; i = L.v("i"); a.log("calls")
        if a.produce: self.step(a, g, i); g.at = i
        elif not L.entry: self.step(a, g, g.K)
        a.fact(And(le(0, i), le(i, g.N)), "within the list")
        self.flags(a, L, i); self.logged(a, g, i, "bindings"); self.quiet(a, g, "bindings")
    def check(self, a, L):
        g = L.g; ctx = a.ctx; i = L.v("i"); a.log("calls")
        a.fact(And(le(0, i), le(i, g.total)), "within the parameters")
        self.flags(a, L, g.N); self.logged(a, g, g.N, "all bindings"); self.quiet(a, g, "check")
        a.fact(Implies(And(le(0, g.J), lt(g.J, i)), g.NAMED.get(ctx, g.J)), "every parameter so far is named in the list")
        if a.produce: g.ck = i
    def post(self, a, g, ret, cs, info, data, sql, pp, rp):
        ctx = a.ctx; own = lambda s: ctx.fail(s, kind="own")
        pr = calls(a, "sqlite3_prepare_v2"); steps, fins, errs = calls(a, "sqlite3_step"), calls(a, "sqlite3_finalize"), calls(a, "cee_json_set_error")
        if len(pr) != 1: own("the statement is prepared once")
        p = pr[0]; t = calls(a, "get_stmt_type")[0]
        a.fact(And(eq(p.args[0], g.db), eq(p.args[1], sql), eq(p.args[2], -1), eq(t.args[0], sql)), "the statement given is prepared")
        if g.pp: a.chunk(pp, 8, "stmt_pp").set(0, P, p.stmt, "the statement is handed to the caller")
        if g.ret.nz:
            mk = calls(a, "cee_json_object_mk"); v = a.chunk(rp, 8, "ret")
            if a.branch(eq(g.ret.old, 0)):
                if len(mk) != 1: own("a status object is made")
                a.fact(eq(mk[0].args[0], g.state), "in the state"); v.set(0, P, mk[0].ret, "a new status object is handed to the caller")
            else: v.set(0, P, g.ret.old, "the status object given is used")
        for c in errs: a.fact(eq(c.args[0], rp), "errors go to the status object")
        if a.branch(ne(p.ret, OK_)):
            if steps: a.fact(False, "a statement that does not compile is not run")
            if not errs: a.fact(False, "the error is reported")
            a.fact(eq(ret, p.ret), "the library's status is returned")
            for c in fins: a.fact(eq(c.args[0], p.stmt), "the statement is finalized")
            return
        for c in steps + fins: a.fact(eq(c.args[0], p.stmt), "the prepared statement is run and finalized")
        a.fact(eq(len(fins), 0 if g.pp else 1), "the statement is finalized once, unless it is handed to the caller")
        a.log("bind")
        if steps:
            if len(steps) != 1 or errs: a.fact(False, "the statement is run once, without an error")
            if g.info:
                a.fact(Implies(And(le(0, g.J), lt(g.J, g.total)), g.NAMED.get(ctx, g.J)), "it is run only if every parameter is named in the list")
                self.logged(a, g, g.N, "when it runs")
            a.fact(eq(ret, steps[0].ret), "the outcome is returned")
            if fins and calls(a).index(fins[0]) < calls(a).index(steps[0]): a.fact(False, "it is finalized after it has run")
        else:
            if not g.info: a.fact(False, "the statement is run"); return
            a.fact(And(lt(g.ck, g.total), Not(g.NAMED.get(ctx, g.ck))), "it is refused only if a parameter is not in the list")
            if len(errs) != 1: a.fact(False, "the refusal is reported")
            a.fact(And(ne(ret, OK_), ne(ret, ROW), ne(ret, DONE)), "the refusal is an error")

# ---- the kind of a statement
def prefix(a, arr, i, word):
    """the text at i starts with the word, in any case"""
    ctx = a.ctx
    return And(*[Or(eq(arr.get(ctx, simp(add(i, k))), ord(c)), eq(arr.get(ctx, simp(add(i, k))), ord(c) - 32)) for k, c in enumerate(word)])
@register
class GetStmtType(Contract):
    fn = "get_stmt_type"; props = ("C23",); nocall = True; loops = {("get_stmt_type", 0): "loop"}; boundable = False
    W = (("select", "SELECT"), ("insert", "INSERT"), ("update", "UPDATE"), ("delete", "DELETE"))
    def pre(self, a, s):
        g = G(s=s); g.arr, g.n = text_in(a, s, "stmt", 1 << 30); g.B = a.ctx.fresh("B", 0, 1 << 30)
        sp = lambda k: self.space(g.arr.get(a.ctx, k))
        # B: the first byte that is no white space
        a.ctx.assume(And(le(g.B, g.n), Not(sp(g.B)))); a.ctx.addfact([g.arr], lambda t: Implies(And(le(0, t), lt(t, g.B)), sp(t)))
        return g
    def space(self, c): return Or(eq(c, 32), And(le(9, c), le(c, 13)))
    def builtin(self, ex, name):
        if name != "strcasestr": return None
        def strcasestr(n, args):
            ctx = ex.ctx; p, w = ex.a1(args); arr, i, L = ex.cstr(p, "strcasestr"); lit = getattr(ctx.find(simp(w))[0], "text", None)
            if lit is None: raise Unsupported("strcasestr of a text that is not a literal")
            word = "".join(chr(c) for c in lit if c)
            r = ctx.fresh("found", 0, 1 << 47); a = A(ex, False)
            ctx.assume(Iff(eq(r, p), prefix(a, arr, i, word))); ctx.assume(Or(eq(r, 0), And(le(p, r), le(r, add(p, L)))))
            return r
        return strcasestr
    def loop(self, a, L):
        g = L.g; ctx = a.ctx
        if a.produce: q = ctx.fresh("q"); L.let(a, "p", simp(add(g.s, q)))
        else: q = simp(sub(L.v("p"), g.s))
        a.fact(And(le(0, q), le(q, g.B)), "only white space is skipped")
    def post(self, a, g, ret, s):
        r = a.tu.enumn["OTHER"]
        for w, k in reversed(self.W): r = If(prefix(a, g.arr, g.B, w), a.tu.enumn[k], r)
        a.fact(eq(ret, r), "the statement's first word decides")

# ---- helpers
def ran(a, c, cs, info, data, sql, pp, ret):
    """cee_sqlite3_bind_run_sql leaves a status object behind"""
    ctx = a.ctx
    if cval(simp(ret)) == 0 or ctx.branch(eq(ret, 0)): return
    if ctx.branch(eq(a.ex.load(ret, P), 0)):
        c.made = ctx.fresh("status", 4096, 1 << 47); a.ex.store(ret, P, c.made)
    if cval(simp(pp)) != 0:
        c.stmt = ctx.fresh("stmt", 0, 1 << 47); a.ex.store(pp, P, c.stmt)
def lit_or(a, p):
    r = a.ctx.find(simp(p)); t = getattr(r[0], "text", None) if r else None
    return None if t is None else "".join(chr(c) for c in t if c)
SV = {f: Ev(f) for f in ("sqlite3_step", "sqlite3_finalize", "sqlite3_errmsg", "sqlite3_changes", "sqlite3_last_insert_rowid", "cee_json_set_error", "cee_json_object_set_i64", "cee_json_object_set_strf", "cee_json_object_set_str",
                         "cee_json_object_set", "cee_json_object_append", "cee_json_array_append", "cee_json_merge", "cee_json_select", "cee_json_to_array", "cee_json_object_rename", "cee_json_object_get")}
SV["cee_json_object_mk"] = Ev("cee_json_object_mk", nonnull=True); SV["cee_json_array_mk"] = Ev("cee_json_array_mk", nonnull=True)
SV["cee_sqlite3_bind_run_sql"] = Ev("cee_sqlite3_bind_run_sql", make=ran)
QUIET = ("sqlite3_errmsg", "cee_json_object_mk", "cee_json_select", "cee_json_to_array", "sqlite3_changes", "sqlite3_last_insert_rowid", "cee_json_object_get", "cee_json_array_mk")
class Sq(Contract):
    props = ("C23",); nocall = True; views = SV; boundable = True
    def base(self, a, cs, status):
        g = G(st=jcell(a, status, "status")); g.db, g.state = csrec(a, cs); g.cs = cs; a.ctx.assume(And(ne(g.db, 0), ne(g.state, 0)))
        return g
    def own(self, a, s): a.ctx.fail(s, kind="own")
    def the(self, a, what, *fns):
        cs = calls(a, *fns)
        if len(cs) != 1: self.own(a, "%s: one call of %s" % (what, fns[0]))
        return cs[0]
    def only(self, a, *ok):
        for c in calls(a):
            if c.fn not in QUIET and c not in ok: self.own(a, "nothing else is done (calls %s)" % c.fn)
    def ran(self, a, c, cs, info, data, sql, status):
        a.fact(And(eq(c.args[0], cs), eq(c.args[1], info), eq(c.args[2], data), eq(c.args[3], sql)), "the statement is run with the bindings given")
        a.fact(And(eq(c.args[4], 0), eq(c.args[5], status)), "its errors go to the status object")
    def status(self, a, g, status):
        """the status object: the one given or a new one, NULL if none is wanted"""
        if not g.st.nz: return 0
        v = a.chunk(status, 8, "status")
        if not a.branch(eq(g.st.old, 0)): v.set(0, P, g.st.old, "the status object given is used"); return g.st.old
        mk = calls(a, "cee_json_object_mk")
        if len(mk) != 1: self.own(a, "a status object is made")
        a.fact(eq(mk[0].args[0], g.state), "in the state"); v.set(0, P, mk[0].ret, "a new status object is handed to the caller")
        return mk[0].ret
    def failed(self, a, status):
        e = self.the(a, "the failure is reported", "cee_json_set_error"); a.fact(eq(e.args[0], status), "in the status object")
        return e
    def number(self, a, obj, key, src, db):
        """the number of src is reported under the key"""
        n = self.the(a, "the outcome is reported", "cee_json_object_set_i64"); r = self.the(a, "the outcome is reported", src)
        a.fact(eq(n.args[0], obj), "in the status object"); a.fact(eq(n.args[2], r.ret), "the number the library gives"); a.fact(eq(r.args[0], db), "for this database")
        if isinstance(key, str):
            if lit_or(a, n.args[1]) != key: a.fact(False, "under the key %s" % key)
        else: a.fact(eq(n.args[1], key), "under the key given")
        return n
@register
class SqInsert(Sq):
    fn = "cee_sqlite3_insert"
    def pre(self, a, cs, info, data, sql, status, key, idp):
        g = self.base(a, cs, status)
        g.id = not a.branch(eq(idp, 0))
        if g.id: g.oid = a.chunk(idp, 4, "id").get(0, I32)
        return g
    def post(self, a, g, ret, cs, info, data, sql, status, key, idp):
        r = self.the(a, "insert", "cee_sqlite3_bind_run_sql"); self.ran(a, r, cs, info, data, sql, status); a.fact(eq(ret, r.ret), "the library's status is returned")
        obj = self.status(a, g, status); idc = a.chunk(idp, 4, "id") if g.id else None
        if a.branch(ne(r.ret, DONE)): self.only(a, r, self.failed(a, status))
        elif g.st.nz:
            n = self.number(a, obj, "last_insert_rowid" if a.branch(eq(key, 0)) else key, "sqlite3_last_insert_rowid", g.db); self.only(a, r, n)
            if g.id: idc.set(0, I32, a.ex.wrap(n.args[2], I32), "the row's number is stored"); return
        else: self.only(a, r)
        if g.id and g.st.nz: idc.set(0, I32, g.oid, "no number is stored")
@register
class SqDelete(Sq):
    fn = "cee_sqlite3_delete"
    def pre(self, a, cs, info, data, sql, status, key): return self.base(a, cs, status)
    def post(self, a, g, ret, cs, info, data, sql, status, key):
        r = self.the(a, "delete", "cee_sqlite3_bind_run_sql"); self.ran(a, r, cs, info, data, sql, status); a.fact(eq(ret, r.ret), "the library's status is returned")
        obj = self.status(a, g, status)
        if a.branch(ne(r.ret, DONE)): self.only(a, r, self.failed(a, status))
        elif not g.st.nz and not calls(a, "cee_json_object_set_i64"): self.only(a, r)
        else: self.only(a, r, self.number(a, obj, "deleted" if a.branch(eq(key, 0)) else key, "sqlite3_changes", g.db))
STMTS = ("table_name", "select_stmt", "insert_stmt", "insert_stmt_x", "update_stmt", "update_stmt_x")
def stmts(a, p):
    cv = a.rec(p, "cee_sqlite3_stmt_strs", None, "stmts", ro=True)
    g = G(**{f: cv.f(f) for f in STMTS}); g.dyn = cv.f("insert_dynamic"); g.update = If(ne(g.update_stmt, 0), g.update_stmt, g.update_stmt_x); g.insert = If(ne(g.dyn, 0), g.insert_stmt_x, g.insert_stmt)
    return g
class SqUpd(Sq):
    def pre(self, a, cs, info, data, ss, status):
        g = self.base(a, cs, status); g.s = stmts(a, ss); return g
    def trap(self, a, g, *r): return False
    def update(self, a, g, ret, rs, cs, info, data, status, obj, rows):
        """a row was found: it is updated"""
        if a.branch(eq(g.s.update, 0)):
            w = self.the(a, "nothing to update", "cee_json_object_set_strf"); a.fact(eq(w.args[0], obj), "the status object says so")
            a.fact(eq(ret, DONE), "nothing to update is no failure"); self.only(a, rs[0], w)
            if len(rs) != 1: self.own(a, "nothing is run")
            return
        if len(rs) != 2: self.own(a, "the update is run")
        self.ran(a, rs[1], cs, info, data, g.s.update, status); a.fact(eq(ret, rs[1].ret), "the library's status is returned")
        if a.branch(ne(rs[1].ret, DONE)): self.only(a, *rs, self.failed(a, status))
        elif rows and g.st.nz: self.only(a, *rs, self.number(a, obj, "updated_rows", "sqlite3_changes", g.db))
        else: self.only(a, *rs)
@register
class SqUpdateIfExists(SqUpd):
    fn = "cee_sqlite3_update_if_exists"
    def first(self, a): 
        rs = calls(a, "cee_sqlite3_bind_run_sql")
        if not rs: self.own(a, "the row is looked for")
        return rs
    def trap(self, a, g, *r):
        return False if g.st.nz else None
    def pre(self, a, cs, info, data, ss, status):
        g = SqUpd.pre(self, a, cs, info, data, ss, status)
        if not g.st.nz: a.ctx.assume(ne(g.s.update, 0))       # otherwise the code stops the program
        return g
    def trap(self, a, g, *r): return False
    def post(self, a, g, ret, cs, info, data, ss, status):
        rs = self.first(a); self.ran(a, rs[0], cs, info, data, g.s.select_stmt, status); obj = self.status(a, g, status)
        if a.branch(ne(rs[0].ret, ROW)):
            a.fact(eq(ret, rs[0].ret), "no such row: the library's status is returned"); self.only(a, rs[0]); return
        self.update(a, g, ret, rs, cs, info, data, status, obj, True)
@register
class SqUpdateOrInsert(SqUpdateIfExists):
    fn = "cee_sqlite3_update_or_insert"
    def post(self, a, g, ret, cs, info, data, ss, status):
        rs = self.first(a); self.ran(a, rs[0], cs, info, data, g.s.select_stmt, status); obj = self.status(a, g, status)
        if not a.branch(ne(rs[0].ret, ROW)): return self.update(a, g, ret, rs, cs, info, data, status, obj, False)
        if len(rs) != 2: self.own(a, "the row is inserted")
        self.ran(a, rs[1], cs, info, data, g.s.insert, status); a.fact(eq(ret, rs[1].ret), "the library's status is returned")
        if a.branch(ne(ret, DONE)): self.only(a, *rs, self.failed(a, status))
        elif g.st.nz: self.only(a, *rs, self.number(a, obj, "last_insert_rowid", "sqlite3_last_insert_rowid", g.db))
        else: self.only(a, *rs)
@register
class SqUpdate(SqUpd):
    fn = "cee_sqlite3_update"; views = dict(SV, cee_sqlite3_update_if_exists=Ev("cee_sqlite3_update_if_exists"))
    def post(self, a, g, ret, cs, info, data, ss, status):
        if g.st.nz: a.chunk(status, 8, "status").set(0, P, g.st.old)
        c = self.the(a, "update", "cee_sqlite3_update_if_exists"); a.fact(And(*[eq(x, y) for x, y in zip(c.args, (cs, info, data, ss, status))]), "the row is updated"); a.fact(eq(ret, c.ret), "its outcome is returned")
        self.only(a, c, *calls(a, "cee_json_set_error"))
class SqFwd(Sq):
    """hands its arguments on"""
    to = None
    def pre(self, a, cs, info, data, ss, status):
        g = G(s=stmts(a, ss)); return g
    def post(self, a, g, ret, cs, info, data, ss, status):
        c = self.the(a, "hand on", self.to); self.only(a, c)
        a.fact(And(eq(c.args[0], cs), eq(c.args[1], info), eq(c.args[2], data), eq(c.args[3], self.sql(g.s)), eq(c.args[4], status), eq(ret, c.ret)), "the statement is run with the bindings given")
        for x in c.args[5:]: a.fact(eq(x, 0), "nothing further is asked for")
def fwd(name, to, sql): return register(type("Sq_" + name, (SqFwd,), dict(fn="cee_sqlite3_" + name, to=to, sql=lambda self, s: sql(s), views=dict(SV, **{to: Ev(to)}))))
fwd("select_wrapper", "cee_sqlite3_select", lambda s: s.select_stmt); fwd("insert_wrapper", "cee_sqlite3_insert", lambda s: s.insert)
class SqOp(Sq):
    views = dict(SV, cee_sqlite3_generic_opcode=Ev("cee_sqlite3_generic_opcode")); f = None
    def pre(self, a, cs, op, inp, status):
        cv = a.rec(op, "cee_sqlite3_db_op", None, "op", ro=True); g = G(i=cv.f("info"), d=cv.f("data"), s=cv.f("stmts"))
        if self.rename: g.st = a.chunk(status, 8, "status").get(0, P)
        return g
    rename = False
    def post(self, a, g, ret, cs, op, inp, status):
        c = self.the(a, "operation", "cee_sqlite3_generic_opcode")
        a.fact(And(*[eq(x, y) for x, y in zip(c.args, (cs, inp, g.i, g.d, g.s, status, faddr(a, self.f)))]), "the operation is run with the input's values"); a.fact(eq(ret, c.ret), "its outcome is returned")
        if self.rename:
            a.chunk(status, 8, "status").set(0, P, g.st)
            r = self.the(a, "rename", "cee_json_object_rename"); self.only(a, c, r)
            a.fact(eq(r.args[0], g.st), "in the status object"); a.fact(And(lit_or(a, r.args[1]) == "last_insert_rowid", lit_or(a, r.args[2]) == "id"), "the row's number is reported as id")
        else: self.only(a, c)
def sop(name, f, rename=False): return register(type("Sq_" + name, (SqOp,), dict(fn="cee_sqlite3_" + name, f=f, rename=rename)))
sop("insert_op", "cee_sqlite3_insert_wrapper", True); sop("update_or_insert_op", "cee_sqlite3_update_or_insert"); sop("update_op", "cee_sqlite3_update")
sop("update_if_exists_op", "cee_sqlite3_update_if_exists"); sop("select_op", "cee_sqlite3_select_wrapper")

# ---- selecting
def stepped(a, c, stmt):
    ctx = a.ctx; l = ctx.logs.setdefault("step", Log()); n = l.n
    log_append(ctx, "step", stmt=stmt)
    return a.ex.spec.g.RC.get(ctx, simp(add(n, 1)))
@register
class SqSelectIter(Sq):
    """RC[t]: the library's status after t steps; R[t]: what the callback answers for row t"""
    fn = "cee_sqlite3_select_iter"; loops = {("cee_sqlite3_select_iter", 0): "loop"}; boundable = False
    views = dict(SV, report_error=Ev("report_error"), sqlite3_step=Ev("sqlite3_step", make=stepped))
    def pre(self, a, cs, info, data, sql, cls, f, status):
        ctx = a.ctx; g = self.base(a, cs, status); g.f, g.cls, g.info = f, cls, info
        g.RC = Base(ctx, "RC", 4, True); g.R = Base(ctx, "R", 4, True); g.t = None
        a.log("step"); a.log("row")
        ctx.logs["step"] = Log(); ctx.logs["row"] = Log()
        return g
    def setup(self, ex): pass
    def trap(self, a, g, *r): return False
    def contract(self, name):
        if name == "cee_json_to_array": return Ev(name, nonnull=True)
        return Sq.contract(self, name)
    def fnptr(self, ex, target, vals, rt):
        g = self.g; ctx = ex.ctx
        ctx.prove(And(eq(target, g.f), eq(vals[0], g.cls), eq(vals[1], g.state), eq(vals[2], g.info), eq(vals[3], self.stmt(ctx))), "the callback is given this row")
        n = ctx.logs["row"].n; log_append(ctx, "row", at=0)
        return g.R.get(ctx, n)
    def stmt(self, ctx):
        c = [c for c in ctx.ghosts["calls"] if c.fn == "cee_sqlite3_bind_run_sql"][0]; return c.stmt
    def loop(self, a, L):
        g = L.g; ctx = a.ctx; a.log("calls"); s, r = a.log("step"), a.log("row")
        if a.produce:
            t = ctx.fresh("t", 0, 1 << 47); g.t = t
            ctx.logs["step"] = Log(t); ctx.logs["row"] = Log(t); L.let(a, "rc", g.RC.get(ctx, t))
        else:
            t = r.n; a.fact(eq(s.n, t), "one step for each row")
            if L.entry: ctx.assume(eq(g.RC.get(ctx, 0), calls(a, "cee_sqlite3_bind_run_sql")[0].ret))
            else: a.fact(And(eq(t, add(g.t, 1)), eq(g.R.get(ctx, g.t), 0), eq(g.RC.get(ctx, g.t), ROW)), "each row is given to the callback once, until it stops")
            a.fact(eq(L.v("rc"), g.RC.get(ctx, t)), "the status of the last step")
    def post(self, a, g, ret, cs, info, data, sql, cls, f, status):
        ctx = a.ctx; r = self.the(a, "select", "cee_sqlite3_bind_run_sql"); s, w = a.log("step"), a.log("row")
        if g.st.nz: a.chunk(status, 8, "status").set(0, P, g.st.old, "the status object is left to the report")
        a.fact(And(eq(r.args[0], cs), eq(r.args[1], info), eq(r.args[2], data), eq(r.args[3], sql)), "the statement is run with the bindings given")
        fin = self.the(a, "finalize", "sqlite3_finalize"); a.fact(eq(fin.args[0], r.stmt), "the statement is finalized once")
        rep = calls(a, "report_error")
        for x in rep: a.fact(And(eq(x.args[0], cs), eq(x.args[4], status)), "errors are reported in the status object")
        self.only(a, r, fin, *rep, *calls(a, "sqlite3_step"))
        if g.t is None:
            a.fact(And(ne(r.ret, ROW), ne(r.ret, DONE), eq(ret, r.ret), eq(w.n, 0), eq(len(rep), 1)), "a statement that fails gives no row and is reported"); return
        t = g.t; a.fact(eq(s.n, t), "one step for each row")
        if a.branch(eq(w.n, t)):
            a.fact(And(ne(g.RC.get(ctx, t), ROW), eq(ret, g.RC.get(ctx, t))), "every row is given to the callback")
            a.fact(eq(len(rep), If(eq(ret, DONE), 0, 1)), "a failure on the way is reported")
        else: a.fact(And(eq(w.n, add(t, 1)), ne(g.R.get(ctx, t), 0), eq(ret, DONE), eq(len(rep), 0)), "the callback stops the selection")
def chosen(a, c, cs, info, data, sql, status):
    ctx = a.ctx
    if cval(simp(status)) == 0 or ctx.branch(eq(status, 0)): return
    c.before = a.ex.load(status, P); c.result = ctx.fresh("result", 0, 1 << 47); a.ex.store(status, P, c.result)
def looked(a, c, o, fmt, *r):
    """selecting from NULL gives NULL"""
    c.path = lit_or(a, fmt); a.ctx.assume(Implies(eq(o, 0), eq(c.ret, 0)))
LV = dict(SV, cee_sqlite3_select=Ev("cee_sqlite3_select", make=chosen), cee_sqlite3_select1=Ev("cee_sqlite3_select1", make=chosen), cee_sqlite3_select_iter=Ev("cee_sqlite3_select_iter"), cee_json_select=Ev("cee_json_select", make=looked))
class SqSel(Sq):
    views = LV
    def pre(self, a, cs, info, data, sql, status, *r): return self.base(a, cs, status)
    def sel(self, a, to, cs, info, data, sql):
        c = self.the(a, "select", to)
        a.fact(And(eq(c.args[0], cs), eq(c.args[1], info), eq(c.args[2], data), eq(c.args[3], sql)), "the statement is run with the bindings given")
        return c
    def path(self, a, o, p):
        cs = [c for c in calls(a, "cee_json_select") if c.path == p and (c.args[0] is o or a.ctx.same(c.args[0], o))]
        if not cs: self.own(a, "%s is looked up" % p)
        return cs[0].ret
    def keep(self, a, g, status):
        if g.st.nz: a.chunk(status, 8, "status").set(0, P, g.st.old, "the status object is left alone")
    def handed(self, a, g, status, v, r, merge="cee_json_merge"):
        """the value becomes the status object, or joins the one given"""
        if not g.st.nz: self.only(a, r); return
        sc = a.chunk(status, 8, "status")
        if a.branch(eq(g.st.old, 0)): sc.set(0, P, v, "the value is handed to the caller"); self.only(a, r)
        else:
            m = self.the(a, "join", merge); self.only(a, r, m); sc.set(0, P, g.st.old, "the status object given is used")
            a.fact(And(eq(m.args[0], g.st.old), eq(m.args[-1], v)), "the value joins the status object given")
            return m
@register
class SqSelect(SqSel):
    fn = "cee_sqlite3_select"
    def post(self, a, g, ret, cs, info, data, sql, status):
        c = self.sel(a, "cee_sqlite3_select_iter", cs, info, data, sql); arr = self.the(a, "rows", "cee_json_array_mk")
        a.fact(And(eq(c.args[4], arr.ret), eq(c.args[5], faddr(a, "get_a_row")), eq(c.args[6], status), eq(arr.args[0], g.state)), "every row is collected in a new array"); a.fact(eq(ret, c.ret), "the library's status is returned")
        if a.branch(ne(ret, DONE)): self.keep(a, g, status); self.only(a, c)
        else: self.handed(a, g, status, arr.ret, c)
class SqSelErr(SqSel):
    def failure(self, a, g, status, c, e):
        """the error joins the status object"""
        obj = self.status(a, g, status)
        if not g.st.nz: self.only(a, c); return
        x = self.the(a, "the error is reported", "cee_json_object_append"); a.fact(And(eq(x.args[0], obj), eq(x.args[2], e), lit_or(a, x.args[1]) == "error"), "the error is reported in the status object"); self.only(a, c, x)
@register
class SqSelect1(SqSelErr):
    fn = "cee_sqlite3_select1"
    def post(self, a, g, ret, cs, info, data, sql, status):
        c = self.sel(a, "cee_sqlite3_select", cs, info, data, sql); a.fact(eq(ret, c.ret), "the library's status is returned"); a.fact(eq(c.before, 0), "only these rows")
        e = self.path(a, c.result, ".error")
        if a.branch(ne(e, 0)): return self.failure(a, g, status, c, e)
        one = self.path(a, c.result, "[0]")
        if a.branch(eq(one, 0)): self.keep(a, g, status); self.only(a, c)
        else: self.handed(a, g, status, one, c)
@register
class SqSelect1OrInsert(SqSelErr):
    fn = "cee_sqlite3_select1_or_insert"
    def pre(self, a, cs, info, data, ss, status): g = self.base(a, cs, status); g.s = stmts(a, ss); return g
    def post(self, a, g, ret, cs, info, data, ss, status):
        c = self.sel(a, "cee_sqlite3_select1", cs, info, data, g.s.select_stmt); a.fact(eq(c.before, 0), "only these rows")
        if a.branch(ne(c.result, 0)):
            a.fact(eq(ret, c.ret), "the library's status is returned")
            if not g.st.nz: self.only(a, c); return
            e = self.path(a, c.result, ".error")
            if a.branch(ne(e, 0)) and not a.branch(eq(g.st.old, 0)):
                self.keep(a, g, status); x = self.the(a, "the error is reported", "cee_json_object_append"); a.fact(And(eq(x.args[0], g.st.old), eq(x.args[2], e)), "the error is reported in the status object"); self.only(a, c, x)
            else: self.handed(a, g, status, c.result, c)
            return
        r = self.the(a, "insert", "cee_sqlite3_bind_run_sql"); self.ran(a, r, cs, info, data, g.s.insert, status); a.fact(eq(ret, r.ret), "the library's status is returned")
        obj = self.status(a, g, status)
        if a.branch(ne(ret, DONE)): self.only(a, c, r, self.failed(a, status))
        elif g.st.nz: self.only(a, c, r, self.number(a, obj, "last_insert_rowid", "sqlite3_last_insert_rowid", g.db))
        else: self.only(a, c, r)
class Flag(Contract):
    """the flag of the first entry for this column"""
    props = ("C23",); nocall = True; boundable = False; flag = None
    def pre(self, a, info, name):
        ctx = a.ctx; g = G(nz=not a.branch(eq(info, 0)))
        if not g.nz: return g
        g.N = ctx.fresh("N", 0, 1 << 20); f = records(a, info, INFO, simp(add(g.N, 1)), "info"); g.var, g.col, g.fl = f("var_name"), f("col_name"), f(self.flag)
        ctx.assume(And(eq(g.var.get(ctx, g.N), 0), eq(g.col.get(ctx, g.N), 0))); some = lambda t: Implies(And(le(0, t), lt(t, g.N)), Or(ne(g.var.get(ctx, t), 0), ne(g.col.get(ctx, t), 0)))
        ctx.addfact([g.var], some); ctx.addfact([g.col], some)
        g.SAME = BBase(ctx, "SAME"); g.X = ctx.fresh("X", 0, 1 << 20)       # X: the first entry of this name
        ctx.assume(le(g.X, g.N)); ctx.assume(Implies(lt(g.X, g.N), And(ne(g.col.get(ctx, g.X), 0), g.SAME.get(ctx, g.col.get(ctx, g.X)))))
        ctx.addfact([g.col], lambda t: Implies(And(le(0, t), lt(t, g.X)), Or(eq(g.col.get(ctx, t), 0), Not(g.SAME.get(ctx, g.col.get(ctx, t))))))
        g.nm = name
        return g
    def builtin(self, ex, name):
        """comparing texts: with the name given"""
        if name != "strcmp": return None
        def strcmp(n, args):
            ctx = ex.ctx; p, q = ex.a1(args); g = self.g
            if ctx.valid(eq(p, g.nm)): p, q = q, p
            if not ctx.valid(eq(q, g.nm)): ctx.fail("the column's name is compared", kind="own")
            r = ctx.fresh("cmp", -255, 255); ctx.assume(Iff(eq(r, 0), g.SAME.get(ctx, p)))
            return r
        return strcmp
    def loop(self, a, L):
        g = L.g; i = L.v("i"); a.log("calls"); a.fact(And(le(0, i), le(i, g.X)), "no entry of this name so far")
    def post(self, a, g, ret, info, name):
        if not g.nz: a.fact(eq(ret, 0), "no list, no flag"); return
        a.fact(eq(ret, If(lt(g.X, g.N), g.fl.get(a.ctx, g.X), 0)), "the flag of the entry of this name")
def flag(fn, f): return register(type("Sq_" + fn, (Flag,), dict(fn=fn, flag=f, loops={(fn, 0): "loop"})))
flag("dont_return_colum", "no_return"); flag("dont_label", "no_label")
