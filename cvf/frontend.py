"""Extraction of the real code: clang's AST of the tree under test.

Nothing is transcribed by hand: the translation unit is assembled by #include of the
sources of /repo (in the order of /repo's Makefiles, with the amalgamation defines those
Makefiles use), or is the committed release/*.c itself, and clang's own JSON AST of it is
what the verifier executes symbolically.
"""
import json, os, re, subprocess, hashlib, tempfile

class FrontendError(Exception):
    pass

CEE_ORDER_FALLBACK = ("musl-hsearch musl-insque musl-lsearch musl-tsearch cee-common boxed str dict map set "
                      "stack tuple triple quadruple list tagged singleton closure block n_tuple env state").split()
JSON_ORDER_FALLBACK = ["value.c", "parser.c", "snprint.c", "tokenizer.c", "cee_json_merge.c"]

def _make_var(text, name):
    text = text.replace("\\\n", " ")
    m = re.search(r"^%s\s*:?=\s*(.*)$" % re.escape(name), text, re.M)
    return m.group(1).split() if m else None

def tu_text(repo, variant):
    if variant in ("source", "sqlite"):
        mk = open(os.path.join(repo, "Makefile")).read()
        musl = _make_var(mk, "MUSL_SRC"); cee = _make_var(mk, "CEE_SRC")
        src = [s for s in (musl or []) + (cee or []) if s.endswith(".c")] or [s + ".c" for s in CEE_ORDER_FALLBACK]
        jmk = open(os.path.join(repo, "cee-json", "Makefile")).read()
        js = [s for s in (_make_var(jmk, "SRC") or []) if s.endswith(".c")] or JSON_ORDER_FALLBACK
        t = ["#define CEE_AMALGAMATION", "#define _GNU_SOURCE"]
        t += ["#include <%s>" % h for h in ("stdio.h", "string.h", "stdlib.h", "stdarg.h", "assert.h", "errno.h")]
        t += ['#include "cee.h"', '#include "musl-search.h"']
        t += ['#include "%s"' % s for s in src]
        t += ["#include <%s>" % h for h in ("sys/types.h", "sys/stat.h", "unistd.h", "ctype.h")]
        t += ["#define CEE_JSON_AMALGAMATION", '#include "cee-json.h"', '#include "tokenizer.h"']
        t += ['#include "%s"' % s for s in js]
        t += ["#define SV_IMPLEMENTATION", '#include "strview.c"']
        inc = [repo, os.path.join(repo, "cee-json")]
        if variant == "sqlite":
            t += ["#include <alloca.h>"] + ['#include "sqlite3/%s.c"' % f for f in ("cee-sqlite3", "join")]
            inc.append(os.path.join(repo, "sqlite3"))
    else:
        t = ['#include "%s/release/cee.c"' % repo, '#include "%s/cee-json/release/cee-json.c"' % repo]
        inc = [os.path.join(repo, "release"), os.path.join(repo, "cee-json", "release")]
    return "\n".join(t) + "\n", inc

INTS = {
    "char": (1, True), "signed char": (1, True), "unsigned char": (1, False),
    "short": (2, True), "unsigned short": (2, False), "int": (4, True), "unsigned int": (4, False),
    "unsigned": (4, False), "long": (8, True), "unsigned long": (8, False), "long long": (8, True),
    "unsigned long long": (8, False), "_Bool": (1, False), "bool": (1, False),
    "size_t": (8, False), "ssize_t": (8, True), "uintptr_t": (8, False), "uint64_t": (8, False),
    "int64_t": (8, True), "uint32_t": (4, False), "int32_t": (4, True), "uint16_t": (2, False),
    "int16_t": (2, True), "uint8_t": (1, False), "int8_t": (1, True), "__int128": (16, True),
    "unsigned __int128": (16, False), "wchar_t": (4, True), "ptrdiff_t": (8, True),
}

class Rec:
    def __init__(self, rid, name, union):
        self.id, self.name, self.union = rid, name, union
        self.fields = []      # (name, offset, type, bit or None, declid)
        self.byname = {}
        self.size = 0; self.align = 1; self.complete = False

class TU:
    def __init__(self, repo, variant, workdir, extra=""):
        self.repo, self.variant = repo, variant
        text, inc = tu_text(repo, variant)
        text += extra
        path = os.path.join(workdir, "tu_%s.c" % variant)
        open(path, "w").write(text)
        self.path, self.inc = path, inc
        cmd = ["clang", "-std=gnu11", "-w", "-D__NO_CTYPE", "-D__builtin_offsetof(t,d)=((unsigned long)&((t*)0)->d)"] + ["-I" + i for i in inc] + ["-fsyntax-only", "-Xclang", "-ast-dump=json", path]
        p = subprocess.run(cmd, capture_output=True, timeout=120)
        if p.returncode != 0:
            raise FrontendError("clang rejects the %s translation unit:\n%s" % (variant, p.stderr.decode()[-2000:]))
        d = json.loads(p.stdout)
        self.decl = {}       # decl id -> node
        self.recs = {}       # rec id -> Rec
        self.rec_by_name = {}
        self.rec_by_str = {}
        self.funcs = {}      # name -> node with body
        self.fdecl = {}
        self.enumc = {}      # enumconst id -> value
        self.enumn = {}
        self.typedefs = {}
        self.field_of = {}   # field decl id -> (Rec, index)
        self.globals = {}    # var id -> node (file scope)
        self._parent = {}
        self.top = d["inner"]
        for n in self.top:
            self._scan(n, None)
        for n in self.top:
            if n["kind"] == "VarDecl":
                self.globals[n["id"]] = n

    # ---------------------------------------------------------------- scanning
    def _scan(self, n, fn):
        k = n.get("kind")
        if k is None:
            return
        if "id" in n and k.endswith("Decl"):
            self.decl[n["id"]] = n
        if k == "RecordDecl":
            self._record(n)
        elif k == "EnumDecl":
            v = -1
            for c in n.get("inner", []):
                if c["kind"] == "EnumConstantDecl":
                    ce = c.get("inner", [])
                    val = None
                    for x in ce:
                        if x.get("kind") == "ConstantExpr" and "value" in x:
                            val = int(x["value"])
                        elif x.get("kind") == "ImplicitCastExpr":
                            y = x
                            while y.get("kind") in ("ImplicitCastExpr", "ConstantExpr", "ParenExpr"):
                                if "value" in y: val = int(y["value"]); break
                                y = y["inner"][0]
                    v = val if val is not None else v + 1
                    self.enumc[c["id"]] = v; self.enumn[c["name"]] = v
                    self.decl[c["id"]] = c
        elif k == "TypedefDecl":
            self.typedefs[n["name"]] = n["type"].get("desugaredQualType", n["type"]["qualType"])
            x = n.get("inner", [None])[0]
            while x is not None:
                d_ = x.get("ownedTagDecl") or x.get("decl")
                if d_ and d_.get("kind") == "EnumDecl" and self.typedefs[n["name"]] == n["name"]: self.typedefs[n["name"]] = "enum " + n["name"]
                if d_ and d_.get("id") in self.recs and not self.recs[d_["id"]].name:
                    self.rec_by_name[n["name"]] = self.recs[d_["id"]]
                x = x["inner"][0] if x.get("inner") else None
        elif k == "FunctionDecl":
            body = [c for c in n.get("inner", []) if c.get("kind") == "CompoundStmt"]
            if body:
                self.funcs[n["name"]] = n
            self.fdecl[n["name"]] = n
        for c in n.get("inner", []):
            self._scan(c, fn)

    def _record(self, n):
        if not n.get("completeDefinition"):
            return
        name = n.get("name")
        r = Rec(n["id"], name, n.get("tagUsed") == "union")
        self.recs[n["id"]] = r
        if name:
            self.rec_by_name[name] = r
        off = 0; bitpos = None; bitunit = None
        pend = []
        for c in n.get("inner", []):
            if c["kind"] == "RecordDecl":
                self._record(c); self._regstr(c)
                pend.append(c["id"])
            elif c["kind"] == "EnumDecl":
                self._scan(c, None)
            elif c["kind"] == "FieldDecl":
                ty = self.ptype(c["type"], pend[-1] if pend else None)
                sz, al = self.sizeof(ty), self.alignof(ty)
                if c.get("isBitfield"):
                    w = None
                    for x in c.get("inner", []):
                        y = x
                        while y is not None:
                            if "value" in y: w = int(y["value"]); break
                            y = y["inner"][0] if y.get("inner") else None
                        if w is not None: break
                    if bitpos is None or bitunit[1] != sz or bitpos + w > sz * 8:
                        o = 0 if r.union else (off + sz - 1) // sz * sz
                        bitunit = (o, sz); bitpos = 0
                        off = o + sz
                    r.fields.append((c.get("name"), bitunit[0], ty, (bitpos, w), c["id"]))
                    bitpos += w
                else:
                    bitpos = None
                    o = 0 if r.union else (off + al - 1) // al * al
                    r.fields.append((c.get("name"), o, ty, None, c["id"]))
                    if r.union: off = max(off, sz)
                    else: off = o + sz
                r.align = max(r.align, al)
                if c.get("name"):
                    r.byname[c["name"]] = r.fields[-1]
                else:   # anonymous member: splice
                    pass
                self.field_of[c["id"]] = (r, len(r.fields) - 1)
                self.decl[c["id"]] = c
            elif c["kind"] == "IndirectFieldDecl":
                pass
        r.size = (off + r.align - 1) // r.align * r.align
        r.complete = True
        self._regstr(n)

    def _regstr(self, n):
        loc = n.get("loc", {})
        l = loc.get("expansionLoc", loc)
        r = self.recs.get(n["id"])
        if r is not None and not r.name:
            col = l.get("col")
            self.rec_by_str.setdefault((n.get("tagUsed"), l.get("line"), col), r)
            r.line, r.col = l.get("line"), col

    # ---------------------------------------------------------------- types
    def ptype(self, t, lastrec=None):
        q = t.get("desugaredQualType", t["qualType"]) if isinstance(t, dict) else t
        return self.pstr(q, lastrec)

    _cache = None
    def pstr(self, q, lastrec=None):
        q = q.strip()
        q0 = q
        q = re.sub(r"\b(const|volatile|restrict|__restrict|register|_Noreturn|extern|static)\b", "", q).strip()
        q = re.sub(r"__attribute__\(\(.*?\)\)", "", q).strip()
        q = re.sub(r"\s+", " ", q)
        # function pointer / function types
        m = re.match(r"^(.*?)\((\*+)\s*(\[\d*\])?\s*\)\s*\((.*)\)$", q)
        if m:
            t = ("fn", m.group(1).strip(), m.group(4))
            for _ in m.group(2): t = ("ptr", t)
            if m.group(3): t = ("arr", t, int(m.group(3)[1:-1] or 0))
            return t
        m = re.match(r"^(.*\S)\s*\(\*\)\s*((?:\[\d*\])+)$", q)
        if m:
            return ("ptr", self.pstr(m.group(1) + m.group(2), lastrec))
        if q.endswith("]"):
            i = q.rindex("[")
            # handle multi-dim: leftmost is outermost
            m = re.match(r"^(.*?)((?:\[[^\]]*\])+)$", q)
            base, dims = m.group(1).strip(), re.findall(r"\[([^\]]*)\]", m.group(2))
            t = self.pstr(base, lastrec)
            for d_ in reversed(dims):
                d_ = d_.strip()
                t = ("arr", t, int(d_) if d_.isdigit() else None)
            return t
        if q.endswith("*"):
            return ("ptr", self.pstr(q[:-1], lastrec))
        if q.endswith(")") and "(" in q and "unnamed" not in q and "anonymous" not in q:
            i = q.index("(")
            return ("fn", q[:i].strip(), q[i + 1:-1])
        if q == "void": return ("void",)
        if q in INTS: s = INTS[q]; return ("bool",) if q in ("_Bool", "bool") else ("int", s[0], s[1])
        if q in ("float",): return ("flt", 4)
        if q in ("double",): return ("flt", 8)
        if q in ("long double",): return ("flt", 16)
        if q.startswith("enum "): return ("int", 4, False)
        m = re.match(r"^(struct|union)\s+(\w+)$", q)
        if m:
            r = self.rec_by_name.get(m.group(2))
            return ("rec", r.id) if r else ("inc", m.group(2))
        m = re.match(r"^(?:(struct|union|enum)\s+)?\((?:unnamed|anonymous)(?: (struct|union|enum))? at (.*):(\d+):(\d+)\)$", q)
        if m or "unnamed" in q or "anonymous" in q:
            if m:
                kind = m.group(1) or m.group(2)
                if kind == "enum": return ("int", 4, False)
                line, col = int(m.group(4)), int(m.group(5))
                for r in self.recs.values():
                    if not r.name and getattr(r, "col", None) == col and getattr(r, "line", None) == line:
                        return ("rec", r.id)
            if lastrec: return ("rec", lastrec)
            # by column only (line numbers are omitted when repeated)
            return ("inc", q)
        if q in self.rec_by_name: return ("rec", self.rec_by_name[q].id)
        if q in self.typedefs and self.typedefs[q] != q: return self.pstr(self.typedefs[q], lastrec)
        if q in ("__builtin_va_list", "va_list", "__va_list_tag", "struct __va_list_tag"):
            return ("valist",)
        if q in self.rec_by_name: return ("rec", self.rec_by_name[q].id)
        return ("inc", q)

    def sizeof(self, t):
        k = t[0]
        if k == "int" or k == "flt": return t[1]
        if k == "bool": return 1
        if k == "ptr": return 8
        if k == "arr": return (t[2] or 0) * self.sizeof(t[1])
        if k == "rec": return self.recs[t[1]].size
        if k == "valist": return 24
        if k == "void" or k == "fn": return 1
        if k == "inc":
            r = self.rec_by_name.get(t[1])
            if r: return r.size
            return 8
        raise FrontendError("sizeof %r" % (t,))

    def alignof(self, t):
        k = t[0]
        if k == "arr": return self.alignof(t[1])
        if k == "rec": return self.recs[t[1]].align
        if k == "valist": return 8
        if k == "inc":
            r = self.rec_by_name.get(t[1])
            return r.align if r else 8
        return max(1, self.sizeof(t))

    def rec(self, name):
        return self.rec_by_name[name]

    def off(self, name, path):
        """offset of a.b.c in struct name"""
        r = self.rec_by_name[name]; o = 0
        for f in path.split("."):
            x = r.byname[f]; o += x[1]
            if x[2][0] == "rec": r = self.recs[x[2][1]]
        return o

    # ---------------------------------------------------------------- hashing
    def normal(self, n, ren=None):
        """canonical text of a function: positions and ids dropped"""
        if ren is None: ren = {}
        out = []
        def go(x):
            if isinstance(x, list):
                for y in x: go(y)
                return
            k = x.get("kind", "")
            out.append("(" + k)
            for f in ("name", "opcode", "value", "castKind", "isPostfix", "isArrow", "tagUsed"):
                if f in x: out.append("%s=%s" % (f, x[f]))
            if "type" in x:
                out.append(re.sub(r" at .*?:\d+:\d+", "", x["type"].get("desugaredQualType", x["type"].get("qualType", ""))))
            rd = x.get("referencedDecl")
            if rd: out.append("->" + rd.get("name", "?"))
            if "argType" in x: out.append(x["argType"]["qualType"])
            for y in x.get("inner", []): go(y)
            out.append(")")
        go(n)
        return " ".join(out)

    def fhash(self, name):
        return hashlib.sha256(self.normal(self.funcs[name]).encode()).hexdigest()[:16]
