"""cee-json/tokenizer.c (C16): tokens of every NUL-terminated text."""
from .base import *
from .str import newstr, strblock
from .strview import isdigit
from .utf8 import *

TX = SZ - 8192
class Tk:
    """the tokenizer at t: the text at its position, its other members"""
    def __init__(self, a, t, top=1 << 48):
        self.cv = cv = a.rec(t, "tokenizer"); self.ctx = a.ctx
        self.kind = cv.ch.kind
        self.b = cv.f("buf"); a.fact(And(le(0, self.b), le(self.b, top)), "an address"); self.arr, self.n = text_in(a, self.b, "buf", TX)
        self.line, self.end, self.str, self.type, self.number = cv.f("line"), cv.f("buf_end"), cv.f("str"), cv.f("type"), cv.f("number.u64")
    def at(self, k): return self.arr.get(self.ctx, simp(k))

def tk_is(a, t, tk, buf, line=None, str=None, number=None):
    """the tokenizer's members are these, the others unchanged; number: (type, C type, value)"""
    cv = a.rec(t, "tokenizer", kind=tk.kind) if a.produce else a.rec(t, "tokenizer")
    cv.setf("buf", buf, "the position is past exactly the token"); cv.setf("buf_end", tk.end, "the end of the text is unchanged")
    cv.setf("line", tk.line if line is None else line, "the line number is that of the token")
    cv.setf("str", tk.str if str is None else str, "the string is as specified")
    off = a.tu.off("tokenizer", "number")
    if number is None: cv.setf("type", tk.type, "the number is unchanged"); cv.set(off, U64, tk.number, "the number is unchanged")
    else: cv.setf("type", number[0], "the number's type"); cv.set(off, number[1], number[2], "the number's value")
    return cv

@register
class ParseString(Contract):
    """R[k]: a unit (a character, or a backslash and the character after it) starts at k"""
    fn = "parse_string"; props = ("C16", "C15"); loops = {("parse_string", 0): "scan"}; boundable = False
    def pre(self, a, st, t):
        ctx = a.ctx
        s = sect(a); sv = state_own(a, st); tail = chain_ok(a, sv)
        tk = Tk(a, t); g = G(s=s, st=sv, tail=tail, tk=tk, R=BBase(ctx, "R"), t=t)
        a.fact(eq(tk.at(0), 34), "the position is at a quote")
        ctx.assume(g.R.get(ctx, 1))
        return g
    def unit(self, a, g, k):
        """definition of R at a unit"""
        ctx = a.ctx; c = g.tk.at(k)
        if a.branch(Or(eq(c, 0), eq(c, 34))): return
        d = simp(add(k, If(And(eq(c, 92), ne(g.tk.at(add(k, 1)), 0)), 2, 1)))
        ctx.assume(g.R.get(ctx, d))
    def scan(self, a, L):
        g = L.g; ctx = a.ctx
        if a.produce: g.k = ctx.fresh("k", 1, SZ); L.let(a, "end", simp(add(g.tk.b, g.k)))
        k = simp(sub(L.v("end"), g.tk.b))
        a.fact(And(le(1, k), le(k, g.tk.n)), "the scan stays inside the text")
        a.fact(g.R.get(ctx, k), "a unit starts here")
        if a.produce: self.unit(a, g, k)
    def post(self, a, g, ret, st, t):
        ctx = a.ctx; tk = g.tk
        sv = state_own(a, st)
        if a.produce:
            ok = a.branch(eq(ret, 1)); r = G(ok=ok, p=tk.b, n=tk.n)
            ctx.ghosts["strtok"] = ctx.ghosts.get("strtok", []) + [r]
            if not ok:
                a.fact(eq(ret, 0)); keep_state(a, g.st, sv); sv.setf("_.trace_tail", g.tail); a.map_is("SECT", g.s.fields, g.s.dom)
                tk_is(a, t, tk, tk.b); return
            r.k = ctx.fresh("quote", 1, SZ); r.str = ctx.fresh("strtok", 4096, 1 << 47); r.L = ctx.fresh("strlen", 0, TX)
            ctx.assume(And(lt(r.k, tk.n), eq(tk.at(r.k), 34), lt(r.L, r.k)))
            r.D = Base(ctx, "token", 1, True)
            ctx.addfact([r.D], lambda q: Implies(And(le(0, q), lt(q, r.L)), ne(r.D.get(ctx, q), 0)))
            keep_state(a, g.st, sv); newstr(a, g, r.str, sv, r.L, lambda q: r.D.get(ctx, q), "")
            tk_is(a, t, tk, simp(add(tk.b, add(r.k, 1))), str=r.str)
            return
        us = ctx.ghosts.get("unescape", [])
        k = g.k; end = tk.at(k)
        same = lambda: (keep_state(a, g.st, sv), sv.setf("_.trace_tail", g.tail, "the chain is unchanged"), a.map_is("SECT", g.s.fields, g.s.dom, "no header changes"))
        if not us:
            a.fact(eq(ret, 0), "a string that is not decoded is refused"); a.fact(eq(end, 0), "refused only when no closing quote ends it")
            same(); tk_is(a, t, tk, tk.b); return
        u = us[-1]
        a.fact(eq(end, 34), "the body ends at the closing quote")
        a.fact(And(eq(u.p, add(tk.b, 1)), eq(u.n, sub(k, 1))), "exactly the body is decoded")
        if not u.ok: a.fact(eq(ret, 0), "refused when the body is refused"); same(); tk_is(a, t, tk, tk.b); return
        a.fact(eq(ret, 1), "accepted when the body is")
        p = a.ex.load(simp(add(t, a.tu.off("tokenizer", "str"))), P)
        keep_state(a, g.st, sv)
        if u.plain: newstr(a, g, p, sv, simp(sub(k, 1)), lambda q: tk.at(add(q, 1)), "the string is the body")
        else: newstr(a, g, p, sv, u.L, lambda q: u.D.get(ctx, q), "the string is the decoded text")
        tk_is(a, t, tk, simp(add(tk.b, add(k, 1))), str=p)

@register
class ParseNumber(Contract):
    fn = "parse_number"; props = ("C16",); boundable = False
    loops = {("parse_number", 0): "run0", ("parse_number", 1): "run1", ("parse_number", 2): "run2"}
    def run(self, a, g, k):
        """the end of the run of digits starting at k"""
        ctx = a.ctx; e = ctx.fresh("run", 0, SZ); tk = g.tk
        ctx.assume(And(le(k, e), le(e, tk.n), Not(isdigit(tk.at(e)))))
        ctx.addfact(ctx.arr_bases(tk.arr), lambda t: Implies(And(le(k, t), lt(t, e)), isdigit(tk.arr.get(ctx, t))))
        return e
    def pre(self, a, t):
        ctx = a.ctx; tk = Tk(a, t); g = G(tk=tk, t=t, ok=False, ends=[None] * 3)
        if not a.produce: return g
        g.i = i = 1 if a.branch(eq(tk.at(0), 45)) else 0
        if not a.branch(isdigit(tk.at(i))): return g
        e = g.ends[0] = self.run(a, g, i); g.int = True; g.exp = False
        c = tk.at(e)
        if a.branch(eq(c, 46)):
            if not a.branch(isdigit(tk.at(add(e, 1)))): return g
            g.int = False; e = g.ends[1] = self.run(a, g, simp(add(e, 1)))
        c = tk.at(e)
        if a.branch(Or(eq(c, 101), eq(c, 69))):
            x = tk.at(add(e, 1)); f = simp(add(e, 2)) if a.branch(Or(eq(x, 43), eq(x, 45))) else simp(add(e, 1))
            if not a.branch(isdigit(tk.at(f))): return g
            g.exp = True; e = g.ends[2] = self.run(a, g, f)
        elif g.int and a.branch(And(eq(tk.at(i), 48), gt(e, i + 1))): return g
        g.ok = True; g.e = e
        return g
    def inrun(self, a, L, j):
        g = L.g; ctx = a.ctx; e = g.ends[j]
        if e is None: ctx.fail("digits are looked for only where the grammar has them", kind="post")
        if a.produce: k = ctx.fresh("k", 0, SZ); L.let(a, "end", simp(add(g.tk.b, k)))
        else: k = simp(sub(L.v("end"), g.tk.b))
        a.fact(And(le(0, k), lt(k, e)), "inside the run of digits")
        if L.entry: g.from_ = k
        a.fact(le(g.from_, k), "inside the run of digits")
        a.fact(isdigit(g.tk.at(k)), "inside the run of digits")
    def run0(self, a, L): self.inrun(a, L, 0)
    def run1(self, a, L): self.inrun(a, L, 1)
    def run2(self, a, L): self.inrun(a, L, 2)
    def post(self, a, g, ret, t):
        ctx = a.ctx; tk = g.tk; ev = lambda k: a.tu.enumn["NUMBER_IS_" + k]
        if a.produce:
            r = G(p=tk.b); ctx.ghosts["numtok"] = ctx.ghosts.get("numtok", []) + [r]
            r.ok = a.branch(eq(ret, 1))
            if not r.ok: a.fact(eq(ret, 0)); self.refused(a, g); return
            r.e = ctx.fresh("numend", 1, SZ); ctx.assume(le(r.e, tk.n)); b = simp(add(tk.b, r.e))
            ty = ctx.fresh("numtype", 0, 2); x = ctx.fresh("numval", 0, (1 << 64) - 1)
            for nm, cty in (("DOUBLE", F64), ("I64", I64), ("U64", U64)):
                if nm == "U64" or a.branch(eq(ty, ev(nm))):
                    v = ctx.fresh("num", -(1 << 63), (1 << 63) - 1) if nm == "I64" else ctx.fresh("num", 0, (1 << 64) - 1) if nm == "U64" else ctx.fresh("real")
                    r.type, r.val = nm, v
                    tk_is(a, t, tk, b, number=(ev(nm), cty, v)); return
        if not g.ok:
            a.fact(eq(ret, 0), "no number by the grammar is refused"); self.refused(a, g); return
        a.fact(eq(ret, 1), "a number by the grammar is accepted")
        b = simp(add(tk.b, g.e))
        if not g.int or g.exp: tk_is(a, t, tk, b, number=(ev("DOUBLE"), F64, a.ex.realval(tk.b))); return
        v = a.ex.decval(tk.b); v = -v if g.i else v
        if a.branch(And(le(-(1 << 63), v), le(v, (1 << 63) - 1))): tk_is(a, t, tk, b, number=(ev("I64"), I64, v))
        elif a.branch(And(le(0, v), le(v, (1 << 64) - 1))): tk_is(a, t, tk, b, number=(ev("U64"), U64, v))
        else: tk_is(a, t, tk, b, number=(ev("DOUBLE"), F64, a.ex.realval(tk.b)))
    def refused(self, a, g):
        tk_is(a, g.t, g.tk, g.tk.b)

@register
class Check(Contract):
    """1 and *ret = buf + |s| when the text at buf starts with s; 0 and *ret = buf otherwise"""
    fn = "check"; props = ("C16",); loops = {("check", 0): "scan"}
    def pre(self, a, buf, s, ret):
        g = G(b=buf, s=s); a.fact(And(le(0, buf), le(buf, 1 << 48)), "an address")
        g.x, g.n = text_in(a, buf, "buf"); g.y, g.m = text_in(a, s, "word")
        if a.verify or a.produce: a.chunk(ret, 8, "result")
        else: a.ex.load(ret, P)
        g.v = a.produce
        return g
    def scan(self, a, L):
        g = L.g; ctx = a.ctx; b, s = g.b, g.s
        if a.produce: k = ctx.fresh("k", 0, SZ); L.let(a, "next", simp(add(b, k))); L.let(a, "s", simp(add(s, k)))
        else: k = simp(sub(L.v("next"), b))
        g.k = k
        a.fact(And(le(0, k), le(k, g.n), le(k, g.m)), "inside both texts")
        if not a.produce: a.fact(eq(L.v("s"), add(s, k)), "the two positions move together")
        a.forall([g.x, g.y], lambda q: Implies(And(le(0, q), lt(q, k)), eq(g.x.get(ctx, q), g.y.get(ctx, q))), "equal so far")
    def post(self, a, g, ret, buf, s, rp):
        ctx = a.ctx
        if a.produce and not g.v:
            m = cval(simp(g.m))
            if m is None: raise Annot("check with a word that is not constant")
            ok = a.branch(And(*[eq(g.x.get(ctx, simp(j)), g.y.get(ctx, j)) for j in range(m)]))
            a.ex.store(rp, P, simp(add(buf, m)) if ok else buf)
            return 1 if ok else 0
        c = a.chunk(rp, 8, "result")
        if a.branch(eq(ret, 1)):
            c.set(0, P, simp(add(buf, g.m)), "past the word"); a.forall([g.x, g.y], lambda q: Implies(And(le(0, q), lt(q, g.m)), eq(g.x.get(ctx, q), g.y.get(ctx, q))), "the text starts with the word")
            return
        a.fact(eq(ret, 0), "0 otherwise"); c.set(0, P, buf, "not moved")
        a.fact(And(lt(g.k, g.m), ne(g.x.get(ctx, g.k), g.y.get(ctx, g.k))), "refused only at a difference")

PUNCT = "[]{}:,"
@register
class NextToken(Contract):
    """NL[k]: line breaks among the first k characters"""
    fn = "cee_json_next_token"; props = ("C16",); boundable = False
    loops = {("cee_json_next_token", 0): "blanks", ("cee_json_next_token", 1): "comment"}
    def pre(self, a, st, t):
        ctx = a.ctx
        s = sect(a); sv = state_own(a, st); tail = chain_ok(a, sv)
        tk = Tk(a, t, 1 << 47); g = G(s=s, st=sv, tail=tail, tk=tk, t=t, stp=st, NL=Base(ctx, "NL", 8, False, False))
        a.fact(And(le(0, tk.line), lt(tk.line, 1 << 30), lt(tk.n, 1 << 30)), "line numbers stay in range")
        a.fact(And(le(0, tk.end), le(tk.end, 1 << 48)), "an address")
        ctx.assume(eq(g.NL.get(ctx, 0), 0))
        return g
    def buf(self, a, L, lo):
        """the tokenizer inside the loops: only position and line have moved"""
        g = L.g; ctx = a.ctx; tk = g.tk
        if a.produce: k = ctx.fresh("k", 0, SZ); b = simp(add(tk.b, k)); line = ctx.fresh("line", 0, 1 << 31)
        else: b = a.ex.load(simp(add(g.t, 8)), P); line = a.ex.load(g.t, I32); k = simp(sub(b, tk.b))
        tk_is(a, g.t, tk, b, line=line); self.same(a, g, state_own(a, g.stp))
        a.fact(And(le(lo, k), le(k, tk.n)), "the position stays inside the text")
        return k, line
    def same(self, a, g, sv): keep_state(a, g.st, sv); sv.setf("_.trace_tail", g.tail, "the chain is unchanged"); a.map_is("SECT", g.s.fields, g.s.dom, "no header changes")
    def blanks(self, a, L):
        g = L.g; ctx = a.ctx; tk = g.tk
        k, line = self.buf(a, L, 0)
        a.fact(eq(line, add(tk.line, g.NL.get(ctx, k))), "lines are counted")
        a.fact(between(0, g.NL.get(ctx, k), k), "lines are counted")
        a.forall([tk.arr], lambda q: Implies(And(le(0, q), lt(q, k)), And(blank(tk.arr.get(ctx, q)), lt(add(tk.b, q), tk.end))), "only blanks are skipped")
        if a.produce:
            g.k = k; c = tk.at(k)
            ctx.assume(eq(g.NL.get(ctx, simp(add(k, 1))), add(g.NL.get(ctx, k), If(Or(eq(c, 10), eq(c, 13)), 1, 0))))
    def comment(self, a, L):
        k, line = self.buf(a, L, simp(add(L.g.k, 2)))
        L.a_line = line
        a.fact(eq(line, add(L.g.tk.line, L.g.NL.get(a.ctx, L.g.k))), "a comment counts no line")
    def post(self, a, g, ret, st, t):
        ctx = a.ctx; tk = g.tk; E = lambda k: a.tu.enumn["tock_" + k]
        if a.produce: return self.give(a, g, ret, st, t)
        k = g.k; c = tk.at(k); line = simp(add(tk.line, g.NL.get(ctx, k)))
        sv = state_own(a, st)
        at = lambda j: simp(add(tk.b, add(k, j)))
        same = lambda: self.same(a, g, sv)
        if a.branch(ge(at(0), tk.end)):
            a.fact(eq(ret, E("eof")), "eof at the end of the text"); same(); tk_is(a, t, tk, at(0), line=line); return
        for p in PUNCT:
            if a.branch(eq(c, ord(p))):
                a.fact(eq(ret, ord(p)), "the token is the character itself"); same(); tk_is(a, t, tk, at(1), line=line); return
        if a.branch(eq(c, 34)):
            ev = ctx.ghosts.get("strtok", [])
            if len(ev) != 1: ctx.fail("a string token is read as a string")
            r = ev[0]; a.fact(eq(r.p, at(0)), "the string token starts at the quote")
            if not r.ok: a.fact(eq(ret, E("err")), "a bad string is an error"); same(); tk_is(a, t, tk, at(0), line=line); return
            a.fact(eq(ret, E("str")), "a string token")
            keep_state(a, g.st, sv); newstr(a, g, r.str, sv, r.L, lambda q: r.D.get(ctx, q), "the token's string")
            tk_is(a, t, tk, at(add(r.k, 1)), line=line, str=r.str); return
        if a.branch(Or(eq(c, 45), isdigit(c))):
            ev = ctx.ghosts.get("numtok", [])
            if len(ev) != 1: ctx.fail("a number token is read as a number")
            r = ev[0]; a.fact(eq(r.p, at(0)), "the number token starts here")
            if not r.ok: a.fact(eq(ret, E("err")), "a bad number is an error"); same(); tk_is(a, t, tk, at(0), line=line); return
            a.fact(eq(ret, E("number")), "a number token"); same()
            tk_is(a, t, tk, at(r.e), line=line, number=(a.tu.enumn["NUMBER_IS_" + r.type], dict(DOUBLE=F64, I64=I64, U64=U64)[r.type], r.val)); return
        same()
        for w, nm in (("true", "true"), ("false", "false"), ("null", "null")):
            if a.branch(eq(c, ord(w[0]))):
                m = len(w)
                for j in range(1, len(w)):
                    if not a.branch(eq(tk.at(add(k, j)), ord(w[j]))): m = 0; break
                if m: a.fact(eq(ret, E(nm)), "the literal's token"); tk_is(a, t, tk, at(m), line=line)
                else:
                    a.fact(eq(ret, E("err")), "an incomplete literal is an error"); tk_is(a, t, tk, at(1), line=line)
                return
        if a.branch(eq(c, 47)):
            a.fact(Or(eq(ret, E("err")), eq(ret, E("eof"))), "a slash is no token")
            b = a.ex.load(simp(add(t, 8)), P); a.fact(And(le(at(1), b), le(b, add(tk.b, tk.n))), "the position stays inside the text")
            tk_is(a, t, tk, b, line=line); return
        a.fact(eq(ret, E("err")), "anything else is an error"); a.fact(Not(blank(c)), "blanks are skipped"); tk_is(a, t, tk, at(0), line=line)

def blank(c): return Or(eq(c, 32), eq(c, 9), eq(c, 10), eq(c, 13))
