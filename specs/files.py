"""Saving and loading JSON text (C24).  The kernel's calls and the parser and printer enter as recorded calls: fstat gives the
file's size, read the bytes there, write takes bytes; cee_json_parsex and cee_json_snprint have their own contracts
(parser.py, snprint.py)."""
from .base import *
from .hash import zf
from .jobj import JObj, jval, kind, anyjson
from .str import fmt_of

I64, I32 = ("int", 8, True), ("int", 4, True)
def fsize(a, c, fd, buf):
    off = field(a.tu, "stat", "st_size")[0]
    c.size = a.ctx.fresh("size", 0, SZ - 2); a.ex.store(simp(add(buf, off)), I64, c.size); return 0
def readin(a, c, fd, b, n):
    """up to n bytes arrive at b (none on an error)"""
    ctx = a.ctx
    ctx.prove(And(le(0, n), lt(n, SZ)), "a size to read")
    r = ctx.fresh("nread", -1, SZ); ctx.assume(le(r, n)); c.n = If(lt(r, 0), 0, r)
    ch, s, i = a.ex.bytes_at(b, "read"); ctx.prove(le(add(add(s.off, i), n), ch.size), "the bytes read fit", kind="ub")
    src = Chunk(ctx.fresh("kernel", 4096, 1 << 47), n, "static", False, "file", init=True); src.ro = True; src.shared = True
    ctx.addchunk(src); c.arr = Base(ctx, "CONTENT", 1, True); src.segs.append(Seg(0, 1, n, {0: (1, c.arr)}))
    a.ex.memcopy(b, src.base, c.n)
    return r
def written(a, c, fd, b, n):
    ctx = a.ctx; ch, s, c.i = a.ex.bytes_at(b, "write"); c.arr = s.fields[0][1]
    ctx.prove(le(add(add(s.off, c.i), n), ch.size), "the bytes written are owned", kind="ub")
    r = ctx.fresh("nwritten", -1, SZ); ctx.assume(le(r, n)); return r
def parsed(a, c, st, b, n, out, force, line):
    """0 and a value, or not 0, NULL and a line"""
    ctx = a.ctx; ch, s, c.i = a.ex.bytes_at(b, "parse"); c.arr = s.fields[0][1]
    ctx.prove(And(le(0, n), lt(add(add(s.off, c.i), n), ch.size), eq(c.arr.get(ctx, simp(add(c.i, n))), 0)), "the text given to the parser is terminated", kind="ub")
    ctx.prove(ne(line, 0), "the parser is given a cell for the line", kind="ub")
    c.line = ctx.fresh("line", 0, 1 << 30); a.ex.store(line, I32, c.line)
    if a.branch(eq(ctx.fresh("accepts", 0, 1), 1)):
        c.val = ctx.fresh("value", 4096, 1 << 47); a.ex.store(out, P, c.val); return 0
    c.val = 0; a.ex.store(out, P, 0); r = ctx.fresh("rc", 1, 200); return r
def textof(a, j, f):
    t = a.ctx.ghosts.setdefault("texts", {}); k = (str(simp(j)), str(simp(f)))
    if k not in t:
        n = a.ctx.fresh("textlen", 0, SZ - 2); t[k] = (Base(a.ctx, "PRINTED", 1, True), n)
    return t[k]
def printed(a, c, st, buf, size, j, f):
    ctx = a.ctx; arr, n = textof(a, j, f)
    if cval(simp(buf)) == 0 or (not isc(simp(buf)) and not a.branch(ne(buf, 0))): return n
    ctx.prove(lt(n, size), "there is room for the text and its terminator", kind="post")
    src = Chunk(ctx.fresh("text", 4096, 1 << 47), simp(add(n, 1)), "static", False, "text", init=True); src.ro = True; src.shared = True
    ctx.addchunk(src); t = arr.store(n, 0); src.segs.append(Seg(0, 1, simp(add(n, 1)), {0: (1, t)}))
    ch, s, i = a.ex.bytes_at(buf, "print"); ctx.prove(le(add(add(s.off, i), size), ch.size), "the size is the buffer's", kind="ub")
    a.ex.memcopy(buf, src.base, simp(add(n, 1)))
    return n
def asprinted(a, c, st, pbuf, plen, j, f):
    arr, n = textof(a, j, f); c.p = a.ctx.fresh("asprinted", 4096, 1 << 47); a.ex.store(pbuf, P, c.p)
    if not (cval(simp(plen)) == 0): a.ex.store(plen, U64, n)
    return n
def filefd(a, c, f):
    r = zf(a, "FILENO", f); a.ctx.assume(And(le(0, r), lt(r, 1 << 20))); return r
def opened(a, c, path, mode):
    ctx = a.ctx; r = ctx.find(simp(mode)); lit = getattr(r[0], "text", None) if r else None
    c.mode = "".join(chr(x) for x in lit if x) if lit is not None else None
    c.ok = a.branch(ne(zf(a, "OPENS", path), 0))
    if not c.ok: return 0
    ctx.assume(le(4096, c.ret))
    for x in calls(a, "fopen"):
        if x.ok: ctx.assume(ne(x.ret, c.ret))
def loaded(a, c, st, f, force, line):
    """a value or NULL and the line of the error"""
    ctx = a.ctx
    if a.branch(eq(ctx.fresh("loads", 0, 1), 1)): c.ok = True; ctx.assume(le(4096, c.ret)); return
    c.ok = False; c.line = ctx.fresh("line", 0, 1 << 30)
    if cval(simp(line)) is None and a.branch(ne(line, 0)): a.ex.store(line, I32, c.line)
    return 0

FV = dict(fstat=Ev("fstat", make=fsize), read=Ev("read", make=readin), write=Ev("write", make=written), cee_json_parsex=Ev("cee_json_parsex", make=parsed), cee_json_snprint=Ev("cee_json_snprint", make=printed),
          fileno=Ev("fileno", make=filefd), fopen=Ev("fopen", make=opened), fclose=Ev("fclose"), cee_state_mk=Ev("cee_state_mk", nonnull=True), cee_del=Ev("cee_del"), perror=Ev("perror"), close=Ev("close"))
QUIET = ("fileno", "perror", "fstat")
class File(JObj):
    props = ("C24",); views = FV; boundable = False; nocall = True
    def only(self, a, *ok):
        for c in calls(a):
            if c.fn not in QUIET and c not in ok: a.ctx.fail("nothing else is done (calls %s)" % c.fn, kind="own")
    def own(self, a, what): a.ctx.fail(what, kind="own")
    def linecell(self, a, p):
        g = G(line=None)
        if a.branch(ne(p, 0)): cv = a.chunk(p, 4, "error line"); g.line = cv.get(0, I32)
        return g
    def line_is(self, a, g, p, want):
        if g.line is not None: a.fact(eq(a.chunk(p, 4, "error line").get(0, I32), want), "the line of the error, untouched without one")

@register
class LoadFileno(File):
    """the value of the bytes of the file, by the parser; or NULL and the line of the error"""
    fn = "cee_json_load_from_fileno"
    def pre(self, a, st, fd, force, line):
        a.fact(And(le(0, force), le(force, 1))); return self.linecell(a, line)
    def post(self, a, g, ret, st, fd, force, line):
        ctx = a.ctx; s = self.the(a, "the size of the file", "fstat"); r = self.the(a, "the bytes of the file", "read"); p = self.the(a, "one value", "cee_json_parsex"); self.only(a, s, r, p)
        a.fact(And(eq(s.args[0], fd), eq(r.args[0], fd)), "of this file")
        a.fact(eq(r.args[2], s.size), "all of the file is read"); a.fact(And(eq(p.args[0], st), eq(p.args[2], r.n)), "everything read is parsed in the state")
        k = ctx.fresh("k"); a.fact(Implies(And(le(0, k), lt(k, r.n)), eq(p.arr.get(ctx, simp(add(p.i, k))), r.arr.get(ctx, k))), "the text parsed is the file's")
        a.fact(Iff(ne(p.args[4], 0), ne(force, 0)), "text after the value is an error if the caller says so")
        a.fact(eq(ret, p.val), "the value, NULL if the text is malformed")
        self.line_is(a, g, line, g.line if cval(simp(p.val)) != 0 else p.line)
@register
class LoadFILE(File):
    fn = "cee_json_load_from_FILE"; views = dict(FV, cee_json_load_from_fileno=Ev("cee_json_load_from_fileno"))
    def pre(self, a, st, f, force, line): return G()
    def post(self, a, g, ret, st, f, force, line):
        c = self.the(a, "load", "cee_json_load_from_fileno"); self.only(a, c)
        a.fact(And(eq(c.args[0], st), eq(c.args[1], zf(a, "FILENO", f)), Iff(ne(c.args[2], 0), ne(force, 0)), eq(c.args[3], line), eq(ret, c.ret)), "the file's descriptor is read with the caller's settings")
@register
class LoadPath(File):
    """a file that cannot be opened traps"""
    fn = "cee_json_load_from_file_path"; views = dict(FV, cee_json_load_from_FILE=Ev("cee_json_load_from_FILE"))
    def pre(self, a, st, path, force, line): return G()
    def trap(self, a, g, st, path, *r): return eq(zf(a, "OPENS", path), 0)
    def post(self, a, g, ret, st, path, force, line):
        o = self.the(a, "open", "fopen"); c = self.the(a, "load", "cee_json_load_from_FILE"); x = self.the(a, "close", "fclose"); self.only(a, o, c, x); cs = calls(a)
        if o.mode not in ("r", "rb"): self.own(a, "opened for reading")
        a.fact(And(eq(o.args[0], path), eq(c.args[0], st), eq(c.args[1], o.ret), Iff(ne(c.args[2], 0), ne(force, 0)), eq(c.args[3], line), eq(ret, c.ret)), "the file at the path is loaded with the caller's settings")
        a.fact(And(eq(x.args[0], o.ret), cs.index(x) > cs.index(c)), "it is closed afterwards")
@register
class LoadBuffer(File):
    """the value of the buffer's text, made in a state of its own"""
    fn = "cee_json_load_from_buffer"
    def pre(self, a, buf, n):
        ctx = a.ctx; a.fact(lt(n, SZ)); cv = a.chunk(buf, simp(add(n, 1)), "buffer", ro=True); arr = cv.seg(0, 1, simp(add(n, 1)), CH, name="buffer"); ctx.assume(eq(arr.get(ctx, n), 0)); return G()
    def post(self, a, g, ret, buf, n):
        s = self.the(a, "a state", "cee_state_mk"); p = self.the(a, "one value", "cee_json_parsex"); d = calls(a, "cee_del")
        if cval(simp(p.val)) == 0:
            for x in d: a.fact(eq(x.args[0], s.ret), "nothing but the state is given up")
            self.only(a, s, p, *d)
        else: self.only(a, s, p)
        a.fact(And(eq(p.args[0], s.ret), eq(p.args[1], buf), eq(p.args[2], n), ne(p.args[4], 0), eq(ret, p.val)), "the value of all of the text, NULL if it is malformed")
@register
class SaveFileno(File):
    """the file gets exactly the printed text"""
    fn = "cee_json_save_fileno"
    def pre(self, a, st, j, fd, how): a.fact(And(le(0, how), le(how, 2)), "a format"); return G()
    def post(self, a, g, ret, st, j, fd, how):
        ctx = a.ctx; w = self.the(a, "the text is written", "write"); ps = calls(a, "cee_json_snprint"); self.only(a, w, *ps); arr, n = textof(a, j, how)
        for p in ps: a.fact(And(eq(p.args[0], st), eq(p.args[3], j), eq(p.args[4], how)), "the value is printed in the format")
        a.fact(And(eq(w.args[0], fd), eq(w.args[2], n)), "the whole text is written to the file"); k = ctx.fresh("k")
        a.fact(Implies(And(le(0, k), lt(k, n)), eq(w.arr.get(ctx, simp(add(w.i, k))), arr.get(ctx, k))), "the bytes written are the printed text")
        a.fact(Iff(ne(ret, 0), eq(w.ret, n)), "true exactly if all of it was written")
@register
class SaveFILE(File):
    fn = "cee_json_save"; views = dict(FV, cee_json_save_fileno=Ev("cee_json_save_fileno"))
    def pre(self, a, st, j, f, how): a.fact(And(le(0, how), le(how, 2)), "a format"); return G()
    def post(self, a, g, ret, st, j, f, how):
        c = self.the(a, "save", "cee_json_save_fileno"); self.only(a, c)
        a.fact(And(eq(c.args[0], st), eq(c.args[1], j), eq(c.args[2], zf(a, "FILENO", f)), eq(c.args[3], how), Iff(ne(ret, 0), ne(c.ret, 0))), "the value is saved to the file's descriptor in the format")
@register
class Dprintf(File):
    """the message, then the value's compact text (null for no value) and a line end; what was made for it is given up"""
    fn = "cee_json_dprintf"
    views = dict(FV, cee_json_asprint=Ev("cee_json_asprint", make=asprinted), vdprintf=Ev("vdprintf", make=lambda a, c, fd, f, v: setattr(c, "ready", v.state == "ready" and v.pos == 0)), dprintf=Ev("dprintf"))
    def pre(self, a, fd, j, fmt, va): return G()
    def post(self, a, g, ret, fd, j, fmt, va):
        from .sqlrows import literal, variadic, vals
        ctx = a.ctx; st = self.the(a, "a state", "cee_state_mk"); d = self.the(a, "given up", "cee_del"); cs = calls(a); pr = calls(a, "cee_json_asprint"); v = calls(a, "vdprintf"); w = self.the(a, "the value", "dprintf"); self.only(a, st, d, w, *pr, *v)
        a.fact(eq(d.args[0], st.ret), "the state is given up"); a.fact(cs[-1] is d, "last")
        if len(pr) > 1 or len(v) > 1: self.own(a, "each part once")
        a.fact(Iff(ne(j, 0), len(pr) == 1), "a value is printed"); a.fact(Iff(ne(fmt, 0), len(v) == 1), "a message is printed")
        for p in pr: a.fact(And(eq(p.args[0], st.ret), eq(p.args[3], j), eq(p.args[4], 0)), "compactly")
        for x in v:
            a.fact(And(eq(x.args[0], fd), eq(x.args[1], fmt)), "the message to the descriptor"); a.fact(x.ready, "with its arguments"); a.fact(cs.index(x) < cs.index(w), "before the value")
        if literal(a, w.args[1]) != "%s\n": self.own(a, "the text and a line end")
        x = vals(variadic(w) or [getattr(y, "v", y) for y in w.args[2:]])[0]; a.fact(eq(w.args[0], fd), "to the descriptor")
        if pr: a.fact(eq(x, pr[0].p), "the value's text")
        elif literal(a, x) != "null": a.fact(False, "null for no value")

def madejson(a, c, *r): a.ctx.assume(le(4096, c.ret))
def saved(a, c, *r): a.ctx.assume(And(le(0, c.ret), le(c.ret, 1)))
@register
class MergeAll(File):
    """the values of the files are merged in order into the first one's, the names are added as the member originals, the result
    is saved; 0 exactly if it was saved"""
    fn = "cee_json_merge_all"; boundable = True
    views = dict(FV, cee_json_load_from_FILE=Ev("cee_json_load_from_FILE", make=loaded), cee_json_merge=Ev("cee_json_merge"), cee_json_array_mk=Ev("cee_json_array_mk", make=madejson), cee_json_object_set=Ev("cee_json_object_set"),
                 cee_json_str_mkf=Ev("cee_json_str_mkf", make=madejson), cee_json_array_append=Ev("cee_json_array_append"), cee_json_save=Ev("cee_json_save", make=saved))
    loops = {("cee_json_merge_all", 0): "merging", ("cee_json_merge_all", 1): "naming"}
    def pre(self, a, files, n, merged):
        ctx = a.ctx; a.fact(And(le(1, n), lt(n, SZ)), "at least one file"); cv = a.chunk(files, simp(mul(8, n)), "files", ro=True)
        return G(files=cv.seg(0, 8, n, P, name="files"), n=n, i=None, phase=0, nc=0)
    def builtin(self, ex, name):
        """the message's text does not matter; it goes to a buffer of this function of at least the size given"""
        if name != "snprintf": return None
        def f(n, args):
            xs = ex.a1(args[:2]); buf = args[0]
            while buf["kind"] in ("ImplicitCastExpr", "ParenExpr"): buf = buf["inner"][0]
            t = ex.ty(buf)
            if t[0] != "arr": raise Unsupported("formatting into something that is no array")
            ex.ctx.prove(le(xs[1], ex.tu.sizeof(t)), "the message stays inside its buffer", kind="ub"); ex.a1(args[2:])
            return ex.ctx.fresh("printed", 0, SZ - 1)
        return f
    def first(self, a, g):
        l = calls(a, "cee_json_load_from_FILE")
        if not l or not l[0].ok: self.own(a, "the first file is loaded")
        return l[0].ret
    def load(self, a, g, cs, k):
        """the calls cs load file k: (opened, loaded)"""
        o = [c for c in cs if c.fn == "fopen"]; l = [c for c in cs if c.fn == "cee_json_load_from_FILE"]
        if len(o) != 1 or len(l) != (1 if o[0].ok else 0): self.own(a, "file after file is opened and loaded")
        if o[0].mode not in ("r", "rb"): self.own(a, "opened for reading")
        a.fact(eq(o[0].args[0], g.files.get(a.ctx, k)), "file after file, in order")
        for c in l: a.fact(And(eq(c.args[0], self.the(a, "one state", "cee_state_mk").ret), eq(c.args[1], o[0].ret), ne(c.args[2], 0)), "the file opened is loaded as one value")
        return o[0], l[0] if l else None
    def merged(self, a, g, cs, k):
        o, l = self.load(a, g, cs, k); m = [c for c in cs if c.fn == "cee_json_merge"]
        if l is None or not l.ok: a.fact(False, "a file that cannot be read is an error")
        if len(m) != 1: a.fact(False, "each file's value is merged once")
        a.fact(And(eq(m[0].args[0], self.first(a, g)), eq(m[0].args[1], l.ret)), "into the first file's value"); self.close(a, cs, o)
        self.others(a, cs, "fopen", "cee_json_load_from_FILE", "cee_json_merge", "fclose")
    def close(self, a, cs, o):
        for c in cs:
            if c.fn == "fclose": a.fact(eq(c.args[0], o.ret), "only the file read is closed")
    def others(self, a, cs, *ok):
        for c in cs:
            if c.fn not in QUIET and c.fn not in ok: self.own(a, "nothing else is done (calls %s)" % c.fn)
    def named(self, a, g, cs, k):
        from .sqlrows import literal, variadic, vals
        s = [c for c in cs if c.fn == "cee_json_str_mkf"]; p = [c for c in cs if c.fn == "cee_json_array_append"]
        if len(s) != 1 or len(p) != 1: a.fact(False, "each name is added once")
        if literal(a, s[0].args[1]) != "%s" or not variadic(s[0]): self.own(a, "the name as it is")
        a.fact(eq(vals(variadic(s[0]))[0], g.files.get(a.ctx, k)), "name after name"); a.fact(And(eq(p[0].args[0], self.the(a, "the list of names", "cee_json_array_mk").ret), eq(p[0].args[1], s[0].ret)), "to the list of names")
        self.others(a, cs, "cee_json_str_mkf", "cee_json_array_append")
    def merging(self, a, L):
        ctx = a.ctx; g = L.g; i = L.v("i"); a.log("calls"); cs = calls(a); a.chunk(L.addr("line"), 4, "line", kind="local"); self.buf(a, L)
        a.fact(And(le(1, i), le(i, g.n)), "file after file")
        if a.produce: g.i = i; g.nc = len(cs); g.phase = 1
        elif L.entry: a.fact(eq(i, 1), "from the second file"); self.load(a, g, cs, 0); self.others(a, cs, "fopen", "cee_state_mk", "cee_json_load_from_FILE")
        else: a.fact(eq(i, add(g.i, 1)), "file after file"); self.merged(a, g, cs[g.nc:], g.i)
    def buf(self, a, L): pass
    def naming(self, a, L):
        ctx = a.ctx; g = L.g; i = L.v("i"); a.log("calls"); cs = calls(a); a.fact(And(le(0, i), le(i, g.n)), "name after name")
        if a.produce: g.i = i; g.nc = len(cs); g.phase = 2
        elif L.entry: a.fact(eq(i, 0), "from the first name"); a.fact(g.phase == 1 and eq(g.i, g.n), "after every file was merged")
        else: a.fact(eq(i, add(g.i, 1)), "name after name"); self.named(a, g, cs[g.nc:], g.i)
    def post(self, a, g, ret, files, n, merged):
        from .sqlrows import literal
        ctx = a.ctx; cs = calls(a); opens = calls(a, "fopen"); loads = calls(a, "cee_json_load_from_FILE"); w = [o for o in opens if o.mode == "w"]; sv = calls(a, "cee_json_save")
        if len(w) > 1 or len(sv) > 1: self.own(a, "one result")
        bad = any(not o.ok for o in opens) or any(not l.ok for l in loads)
        if w: a.fact(And(eq(w[0].args[0], merged), not any(not o.ok for o in opens if o is not w[0]) and not any(not l.ok for l in loads)), "the result is written only if every file was read")
        if bad or not sv: a.fact(bad, "an error only if a file cannot be read or written"); a.fact(ne(ret, 0), "which is reported"); a.fact(not sv, "nothing is saved then"); return
        if not w: self.own(a, "the result is opened")
        st = self.the(a, "one state", "cee_state_mk"); arr = self.the(a, "the names", "cee_json_array_mk"); o = self.the(a, "the names", "cee_json_object_set"); s = sv[0]; f = self.first(a, g)
        if literal(a, o.args[1]) != "originals": self.own(a, "the member originals")
        a.fact(And(eq(o.args[0], f), eq(o.args[2], arr.ret), eq(arr.args[0], st.ret)), "the list of names is the member originals of the merged value")
        a.fact(And(eq(s.args[1], f), eq(s.args[2], w[0].ret)), "the merged value is saved to the result's file"); a.fact(Iff(eq(ret, 0), ne(s.ret, 0)), "0 exactly if it was saved")
        x = [c for c in cs if c.fn == "fclose"]
        if self.bounded: self.whole(a, g, cs, w[0]); return
        a.fact(g.phase == 2 and eq(g.i, g.n), "every name was added")
        if not any(ctx.same(c.args[0], w[0].ret) and cs.index(c) > cs.index(s) for c in x): self.own(a, "the result's file is closed afterwards")
    def whole(self, a, g, cs, w):
        """with the loops executed: file after file and name after name"""
        ctx = a.ctx; k = 0; i0 = cs.index(w); os = [c for c in cs[:i0] if c.fn == "fopen"]; ns = [c for c in cs if c.fn == "cee_json_str_mkf"]
        while ctx.branch(lt(k, g.n)): k += 1
        if len(os) != k: a.fact(False, "every file is read once")
        for j in range(1, k): self.merged(a, g, cs[cs.index(os[j]):cs.index(os[j + 1]) if j + 1 < k else i0], j)
        if len(ns) != k: a.fact(False, "every name is added once")
        for j in range(k):
            b = cs.index(ns[j]); e = cs.index(ns[j + 1]) if j + 1 < k else b + 2
            self.named(a, g, [c for c in cs[b:e] if c.fn in ("cee_json_str_mkf", "cee_json_array_append")], j)
