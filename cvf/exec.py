"""Symbolic execution of clang's AST over the symbolic heap of core.py, with contracts.

A function is verified against its contract from an arbitrary state satisfying the precondition;
calls to functions that have a contract use the contract (never the body); other callees of the tree
under test are executed in place; loops are cut by their invariants (or unrolled when their bound is a
constant of the code).  Everything that cannot be interpreted raises Unsupported - nothing is skipped.
"""
import z3
from .core import *

class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class ReturnEx(Exception):
    def __init__(self, v): self.v = v
class GotoEx(Exception):
    def __init__(self, l): self.l = l
class TrapEx(Exception): pass

UNINIT = object()
PMAX = (1 << 64) - 1

class VaList:
    """a va_list object: identity of the argument pack, position, validity"""
    def __init__(self): self.pack = None; self.pos = 0; self.state = "uninit"

class Pack:
    """variable arguments of one call: concrete tail or symbolic"""
    def __init__(self, args=None, name="va"): self.args = args; self.name = name; self.get = None

class Frame:
    def __init__(self, fn, name):
        self.fn, self.name = fn, name
        self.env, self.mem, self.names, self.types = {}, {}, {}, {}
        self.va = {}; self.pack = None; self.locals = []; self.loopno = {}

class LV:
    __slots__ = ("k", "v", "ty", "bit", "hint")
    def __init__(self, k, v, ty, bit=None, hint=None):
        self.k, self.v, self.ty, self.bit, self.hint = k, v, ty, bit, hint

SIDE = ("CallExpr", "CompoundAssignOperator", "StmtExpr", "VAArgExpr")

class Exec:
    def __init__(self, tu, ctx, spec):
        self.tu, self.ctx, self.spec = tu, ctx, spec
        self.frames = []
        self.lits = {}; self.statics = {}
        self.fnaddr = {}
        self.depth = 0
        self.bounded = getattr(spec, "bounded", None)
        self.addrtaken = {}
        self.oob_zero = False
        self.auto = []          # auto-unfold hooks: f(exec, addr, hint) -> bool

    # ------------------------------------------------------------------ helpers
    @property
    def fr(self): return self.frames[-1]

    def faddr(self, name):
        if name not in self.tu.fdecl and name not in self.fnaddr: pass
        tab = self.tu.__dict__.setdefault("_fnaddr", {})
        if name not in tab: tab[name] = (1 << 50) + 16 * (len(tab) + 1)
        return tab[name]

    def fname(self, addr):
        c = cval(simp(addr))
        tab = self.tu.__dict__.setdefault("_fnaddr", {})
        for n, a in tab.items():
            if a == c: return n
        return None

    def ty(self, n): return self.tu.ptype(n["type"])

    def at(self, n):
        r = n.get("range", {}).get("begin", {})
        r = r.get("expansionLoc", r)
        if r.get("line"): self._line = r["line"]

    def lab(self, s):
        return "%s: %s" % (self.fr.name, s) if self.frames else s

    def ub(self, c, s, fatal=True):
        return self.ctx.prove(c, self.lab(s), fatal=fatal, kind="ub")

    # ------------------------------------------------------------------ integers
    def wrap(self, v, ty):
        if ty[0] == "ptr": sz, sg = 8, False
        elif ty[0] == "bool":
            return self.b2i(ne(v, 0))
        elif ty[0] == "int": sz, sg = ty[1], ty[2]
        else: return v
        lo, hi = irange(sz, sg)
        m = 1 << (8 * sz)
        c = cval(v)
        if c is not None:
            c = int(c) % m
            return c - m if sg and c > hi else c
        a, b = self.ctx.iv(v)
        if a is not None and b is not None and lo <= a and b <= hi: return v
        if self.ctx.valid(And(le(lo, v), le(v, hi))): return v
        if a is not None and b is not None and a >= lo - m and b <= hi + m:
            r = If(lt(v, lo), add(v, m), If(gt(v, hi), sub(v, m), v))
        else:
            r = T(v) % m
            if sg: r = If(gt(r, hi), sub(r, m), r)
        self.ctx.keep.append(r); self.ctx.vr[r.get_id()] = (lo, hi)
        return r

    def b2i(self, c):
        if isinstance(c, bool): return int(c)
        if getattr(self.spec, "decide", False): return int(self.ctx.branch(c))
        return If(c, 1, 0)

    def truth(self, v):
        if isinstance(v, (z3.BoolRef, bool)): return v
        if isinstance(v, z3.ExprRef) and z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            ch = v.children()
            a, b = cval(ch[1]), cval(ch[2])
            if a is not None and b is not None:
                if a != 0 and b == 0: return ch[0]
                if a == 0 and b != 0: return Not(ch[0])
        return ne(v, 0)

    # ------------------------------------------------------------------ memory access
    def chunkat(self, addr, hint=None, why="access"):
        """(chunk, offset) or ('map', m, recaddr)"""
        ctx = self.ctx
        for attempt in range(6):
            a = simp(addr)
            r = ctx.find(a)
            if r is not None: return r
            # a conditional pointer: split on its condition
            ats, c0 = lin(a)
            split = False
            for t, q in ats.values():
                if q == 1 and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                    ch = t.children()
                    if ctx.branch(ch[0]): nv = ch[1]
                    else: nv = ch[2]
                    addr = simp(add(sub(a, t), nv)); split = True; break
            if split: continue
            for h in self.auto:
                if h(self, a, hint): split = True; break
            if split: continue
            return self.resolve_other(a, hint)
        return None

    def resolve_other(self, a, hint):
        ctx = self.ctx
        c = cval(a)
        if c is not None and 0 <= c < 4096: return ("null", None)
        r = ctx.find_sem(a)
        if r is not None: return r
        return None

    def unowned(self, addr):
        """the kind of failure of an access the contract gives no memory for: a definite error for a constant address or a block freed on this path; otherwise the contract may own too little (soft)"""
        addr = simp(addr)
        if cval(addr) is not None: return "ub"
        for e in self.ctx.events:
            if e[0] == "free" and cval(simp(sub(addr, e[1].base))) is not None: return "ub"
        return "own"

    def access(self, addr, sz, hint, write):
        """-> ('cell',chunk,off) ('seg',chunk,seg,idx,fo) ('map',m,rec,field)"""
        ctx = self.ctx
        r = self.ctx.find(simp(addr))
        if r is None:
            m = self.mapaccess(addr, hint, sz)
            if m is not None: return m
            r = self.chunkat(addr, hint)
        if r is None:
            self.ctx.fail(self.lab("%s of memory not owned here (%s)" % ("write" if write else "read", str(simp(addr))[:120])), kind=self.unowned(addr))
        if r[0] == "null":
            self.ctx.fail(self.lab("%s through a NULL pointer" % ("write" if write else "read")), kind="ub")
        ch, d = r
        if ch.free == "freed":
            self.ctx.fail(self.lab("use after free of %s" % ch.name), kind="ub")
        if write and ch.ro:
            self.ctx.fail(self.lab("write to %s, which is outside the frame here" % (ch.name or ch)), kind="frame")
        d = simp(d)
        if getattr(self.spec, "decide", False) and not isc(d) and cval(ch.size) is not None and cval(ch.size) <= 64 and ch.cells:
            for o in sorted(ch.cells):
                if ctx.valid(eq(d, o)): d = o; break
        dc = cval(d)
        ctx.prove(And(le(0, d), le(add(d, sz), ch.size)), self.lab("%s stays inside %s" % ("write" if write else "read", ch.name or "block")), fatal=True, kind="ub")
        for (ho, hs, mp) in getattr(ch, "holes", ()):
            if dc is not None and ho <= dc < ho + hs:
                return self.holeaccess(ch, ho, mp, dc - ho, sz, hint)
        if dc is not None and not any(self._seg_const(s, dc) for s in ch.segs):
            if dc in ch.cells or not ch.segs: pass
            else:
                for s in ch.segs:
                    if isc(s.off) and dc >= s.off:
                        q = divmod(dc - s.off, s.stride)
                        if s.stride == 1 or q[1] in s.fields or not s.fields or len(s.fields) == 1:
                            if sz <= s.stride and ctx.valid(lt(q[0], s.count)):
                                return ("seg", ch, s, q[0], q[1])
            if dc in ch.cells or not self._want_seg(ch, dc, sz, hint):
                return ("cell", ch, dc)
        # symbolic offset or constant one inside a segment
        for s in ch.segs:
            rel = sub(d, s.off)
            for fo in ([0] if not s.fields else list(s.fields)):
                for extra in (0,):
                    q = divexact(simp(sub(rel, fo)), s.stride)
                    if q is None: continue
                    q = simp(q)
                    if len(ch.segs) > 1 and not ctx.valid(And(le(0, q), lt(q, s.count))): continue
                    ctx.prove(And(le(0, q), lt(q, s.count)), self.lab("index within %s" % (ch.name or "array")), fatal=True, kind="ub")
                    if sz > s.stride: raise Unsupported("wide access to array element")
                    return ("seg", ch, s, q, fo)
            if s.fields and len(s.fields) >= 1 and s.stride > 1:
                # field not yet known in this segment: offset modulo stride
                at, c0 = lin(rel)
                if all(c % s.stride == 0 for _, c in at.values()):
                    fo = c0 % s.stride
                    q = simp(divexact(simp(sub(rel, fo)), s.stride))
                    if len(ch.segs) > 1 and not ctx.valid(And(le(0, q), lt(q, s.count))): continue
                    ctx.prove(And(le(0, q), lt(q, s.count)), self.lab("index within %s" % (ch.name or "array")), fatal=True, kind="ub")
                    return ("seg", ch, s, q, fo)
        # raw chunk: becomes an array
        st = hint and hint.get("stride")
        if not ch.segs and st:
            off0 = 0; o_exact = False
            base = hint.get("abase")
            if base is not None:
                o = cval(simp(sub(base, ch.base)))
                if o is not None and o >= 0:
                    off0 = o % st if not ch.cells and not hint.get("acount") else o
                    o_exact = off0 == o
            ac = hint.get("acount") if o_exact else None
            if ch.cells and any(k >= off0 and (ac is None or k < off0 + ac * st) for k in ch.cells):
                return self._cells_to_seg(ch, d, sz, st, off0, ac)
            cnt = self._count(sub(ch.size, off0), st) if ac is None else ac
            s = Seg(off0, st, cnt)
            ch.segs.append(s)
            q = divexact(simp(sub(d, off0)), st)
            fo = 0
            if q is None:
                at, c0 = lin(simp(sub(d, off0)))
                if all(c % st == 0 for _, c in at.values()):
                    fo = c0 % st; q = divexact(simp(sub(sub(d, off0), fo)), st)
            if q is not None:
                q = simp(q)
                ctx.prove(And(le(0, q), lt(q, s.count)), self.lab("index within %s" % (ch.name or "array")), fatal=True, kind="ub")
                return ("seg", ch, s, q, fo)
        raise Unsupported("cannot interpret access at offset %s of %s (hint %s)" % (d, ch, hint))

    def _cells_to_seg(self, ch, d, sz, st, off0, count=None):
        """a small array held as cells, indexed symbolically: turn it into an array segment"""
        size = cval(ch.size)
        n = (size - off0) // st if size is not None else self._count(simp(sub(ch.size, off0)), st)
        if count is not None: n = count
        fields = {}
        offs = sorted(k for k in ch.cells if k >= off0 and (count is None or k < off0 + count * st))
        fos = sorted(set((k - off0) % st for k in offs)) or [0]
        s = Seg(off0, st, n)
        for fo in fos:
            csz = None
            b = None
            for k in offs:
                if (k - off0) % st == fo:
                    z, sg, v = ch.cells[k]
                    if b is None: b = Base(self.ctx, (ch.name or "arr"), z, sg); csz = z
                    b = b.store((k - off0) // st, v)
            fields[fo] = (csz, b)
        s.fields = fields
        for k in offs: del ch.cells[k]
        ch.segs.append(s)
        q = divexact(simp(sub(sub(d, off0), fos[0])), st)
        fo = fos[0]
        if q is None:
            at, c0 = lin(simp(sub(d, off0)))
            fo = c0 % st; q = divexact(simp(sub(sub(d, off0), fo)), st)
            if q is None: raise Unsupported("stride")
        q = simp(q)
        self.ctx.prove(And(le(0, q), lt(q, n)), self.lab("index within %s" % (ch.name or "array")), fatal=True, kind="ub")
        return ("seg", ch, s, q, fo)

    def _count(self, bytes_, st):
        if st == 1: return bytes_
        q = divexact(simp(bytes_), st)
        if q is not None: return simp(q)
        c = cval(simp(bytes_))
        if c is not None: return c // st
        return T(bytes_) / st

    def _seg_const(self, s, dc):
        if not isc(s.off): return False
        if isc(s.count): return s.off <= dc < s.off + s.count * s.stride
        return dc >= s.off and False

    def _want_seg(self, ch, dc, sz, hint):
        return False

    def mapaccess(self, addr, hint, sz):
        if not hint or hint.get("rec") is None: return None
        for c in self.ctx.heap:
            if isinstance(c, MapChunk) and c.rec is hint["rec"]:
                base = simp(hint["recbase"])
                rel = cval(simp(sub(addr, base)))
                if rel is None: return None
                # split conditional pointers
                if not isc(base):
                    ats, _ = lin(base)
                    for t, q in ats.values():
                        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE: return None
                if isc(base) and 0 <= base < 4096: return None
                return ("map", c, base, rel)
        return None

    def holeaccess(self, ch, ho, mp, rel, sz, hint):
        m = self.getmap(mp)
        return ("map", m, simp(add(ch.base, ho)), rel)

    def getmap(self, name):
        for c in self.ctx.heap:
            if isinstance(c, MapChunk) and c.name == name: return c
        raise Unsupported("no %s in scope" % name)

    def segarr(self, ch, s, fo, sz, signed):
        f = s.fields.get(fo)
        if f is None:
            b = Const(0, sz, signed) if getattr(s, "zero", False) and signed != "f" else Base(self.ctx, (ch.name or "arr") + ("" if fo == 0 else "_%d" % fo), sz, signed)
            s.fields[fo] = (sz, b); return b
        return f[1]

    def conv(self, v, signed_from, ty):
        if ty[0] == "flt": return v
        if ty[0] == "int" and ty[2] != signed_from and not (isinstance(v, int) and v >= 0): return self.wrap(v, ty)
        if ty[0] == "int": return v if not isinstance(v, int) else self.wrap(v, ty)
        if ty[0] == "ptr" and signed_from is True: return self.wrap(v, ty)
        if ty[0] == "bool": return v
        return v

    @staticmethod
    def sgn(ty): return {"int": ty[2] if ty[0] == "int" else None, "ptr": False, "bool": False, "flt": "f"}.get(ty[0], False)

    def load(self, addr, ty, hint=None, bit=None):
        pk = getattr(self.spec, "peek", None)
        if pk is not None:
            v = pk(self, addr, ty)
            if v is not None: return v
        if ty[0] == "rec" or ty[0] == "arr": return self.loadstruct(addr, self.tu.sizeof(ty))
        sz = self.tu.sizeof(ty)
        loc = self.access(addr, sz, hint, False)
        if loc[0] == "cell": return self.cellread(loc[1], loc[2], sz, ty, bit)
        if loc[0] == "seg":
            _, ch, s, q, fo = loc
            a = self.segarr(ch, s, fo, sz, self.sgn(ty))
            if s.fields[fo][0] != sz:
                if s.stride == 1: raise Unsupported("multi-byte read of byte array")
                raise Unsupported("mixed-size array access")
            v = a.get(self.ctx, q)
            return self.conv(v, a.signed, ty)
        if loc[0] == "map": return self.mapread(loc[1], loc[2], loc[3], ty, bit)
        raise Unsupported("load")

    def cellread(self, ch, off, sz, ty, bit=None):
        ctx = self.ctx
        if bit is not None:
            k = (off, bit[0], bit[1])
            if k in ch.bfs: return self.conv(ch.bfs[k], False, ty)
            if any(z[0] <= off and off + sz <= z[0] + z[1] for z in ch.zeros): return 0
            if ch.init:
                v = ctx.fresh("%s_bf%d_%d" % (ch.name, off, bit[0]), 0, (1 << bit[1]) - 1)
                ch.bfs[k] = v; return v
            ctx.fail(self.lab("read of uninitialised memory (%s+%d bit %d)" % (ch.name, off, bit[0])), kind="ub")
        c = ch.cells.get(off)
        if c is not None and c[0] == sz: return self.conv(c[2], c[1], ty) if c[1] != "f" or ty[0] == "flt" else self.bits(c[2], sz)
        if c is not None and c[0] > sz or c is None:
            for o, (z, sg, v) in ch.cells.items():
                if o <= off and off + sz <= o + z and z > sz:
                    u = self.wrap(v, ("int", z, False)) if sg else v
                    if sg == "f": raise Unsupported("partial read of a floating value")
                    sh = 8 * (off - o)
                    if isinstance(u, int): r = (u >> sh) % (1 << (8 * sz))
                    else:
                        r = u if sh == 0 else T(u) / (1 << sh)
                        r = self.wrap(r, ("int", sz, False))
                    return self.conv(r, False, ty) if ty[0] != "int" or not ty[2] else self.wrap(r, ty)
        # composed from smaller constant cells / zero bytes
        parts = [(o, x) for o, x in ch.cells.items() if o < off + sz and off < o + x[0]]
        zs = [z for z in ch.zeros if z[0] <= off and off + sz <= z[0] + z[1]]
        if not parts and zs: return 0
        if parts and all(o >= off and o + x[0] <= off + sz for o, x in parts):
            cov = sorted((o, o + x[0]) for o, x in parts)
            pos = off; ok = True
            for a, b in cov:
                if a > pos and not zs: ok = False; break
                pos = b
            if pos < off + sz and not zs: ok = False
            if ok:
                r = 0
                for o, (z, sg, v) in parts:
                    if sg == "f": raise Unsupported("float part")
                    u = self.wrap(v, ("int", z, False))
                    r = add(r, mul(u, 1 << (8 * (o - off))))
                return self.wrap(r, ty)
        if ch.init and not parts:
            v = self.freshval(ty, "%s_%d" % (ch.name, off))
            ch.cells[off] = (sz, self.sgn(ty), v); return v
        ctx.fail(self.lab("read of uninitialised memory (%s+%d)" % (ch.name, off)), kind="ub")

    def bits(self, v, sz):
        f = z3.Function("fbits%d" % sz, INT, INT)
        r = f(T(v)); self.ctx.keep.append(r); self.ctx.vr[r.get_id()] = (0, (1 << (8 * sz)) - 1)
        self.ctx.assume(And(le(0, r), lt(r, 1 << (8 * sz))))
        return r

    def freshval(self, ty, name):
        if ty[0] == "int": return self.ctx.freshty(name, ty[1], ty[2])
        if ty[0] == "bool": return self.ctx.fresh(name, 0, 1)
        if ty[0] == "ptr": return self.ctx.fresh(name, 0, PMAX)
        if ty[0] == "flt": return self.ctx.fresh(name)
        if ty[0] == "void": return None
        if ty[0] == "rec":
            r = self.tu.recs[ty[1]]; sv = StructVal(r.size, {})
            for f in r.fields:
                if f[3] is None and f[2][0] not in ("rec", "arr"):
                    sv.cells[f[1]] = (self.tu.sizeof(f[2]), self.sgn(f[2]), self.freshval(f[2], name + "_" + str(f[0])))
            return sv
        raise Unsupported("fresh value of type %r" % (ty,))

    def cleararea(self, ch, off, sz):
        for o in [o for o, x in ch.cells.items() if o < off + sz and off < o + x[0]]:
            z, sg, v = ch.cells.pop(o)
            if o < off or o + z > off + sz:
                if sg == "f": continue
                u = self.wrap(v, ("int", z, False)) if sg else v
                def piece(a, b):
                    sh = 8 * (a - o)
                    if isinstance(u, int): w = (u >> sh) % (1 << (8 * (b - a)))
                    else: w = self.wrap(u if sh == 0 else T(u) / (1 << sh), ("int", b - a, False))
                    ch.cells[a] = (b - a, False, w)
                if o < off: piece(o, off)
                if o + z > off + sz: piece(off + sz, o + z)
        nz = []
        for (o, n) in ch.zeros:
            if o < off + sz and off < o + n:
                if o < off: nz.append((o, off - o))
                if o + n > off + sz: nz.append((off + sz, o + n - off - sz))
            else: nz.append((o, n))
        ch.zeros = nz

    def store(self, addr, ty, val, hint=None, bit=None):
        if ty[0] in ("rec", "arr"): return self.storestruct(addr, val)
        sz = self.tu.sizeof(ty)
        loc = self.access(addr, sz, hint, True)
        if loc[0] == "cell":
            ch, off = loc[1], loc[2]
            if bit is not None:
                ch.bfs[(off, bit[0], bit[1])] = self.bfwrap(val, bit[1]); return
            for k in [k for k in ch.bfs if off <= k[0] < off + sz]: del ch.bfs[k]
            self.cleararea(ch, off, sz)
            ch.cells[off] = (sz, self.sgn(ty), val)
        elif loc[0] == "seg":
            _, ch, s, q, fo = loc
            a = self.segarr(ch, s, fo, sz, self.sgn(ty))
            if s.fields[fo][0] != sz: raise Unsupported("mixed-size array write")
            if a.signed != self.sgn(ty): val = self.wrap(val, ("int", sz, bool(a.signed))) if a.signed != "f" else val
            s.fields[fo] = (sz, a.store(q, val))
            if s.stride == 1 and cval(val) == 0: ch.nuls = [q] + ch.nuls
        elif loc[0] == "map":
            self.mapwrite(loc[1], loc[2], loc[3], ty, val, bit)
        else: raise Unsupported("store")

    def bfwrap(self, v, w):
        c = cval(simp(v))
        if c is not None: return int(c) % (1 << w)
        if self.ctx.valid(And(le(0, v), lt(v, 1 << w))): return v
        return T(v) % (1 << w)

    # record maps -------------------------------------------------------
    def mapfield(self, m, rel, bit):
        for f in m.rec.fields:
            if f[1] == rel and (f[3] == bit or (bit is None and f[3] is None)): return f
        raise Unsupported("offset %s of %s" % (rel, m.rec.name))

    def mapread(self, m, rec, rel, ty, bit=None):
        f = self.mapfield(m, rel, bit)
        self.ctx.prove(m.dom(self, rec), self.lab("%s of a live block is read" % m.rec.name), fatal=True, kind="ub")
        return m.fields[f[0]].get(self.ctx, rec)

    def mapwrite(self, m, rec, rel, ty, val, bit=None):
        if m.ro: self.ctx.fail(self.lab("write to %s outside the frame" % m.name), kind="frame")
        f = self.mapfield(m, rel, bit)
        self.ctx.prove(m.dom(self, rec), self.lab("%s of a live block is written" % m.rec.name), fatal=True, kind="ub")
        if bit is not None: val = self.bfwrap(val, bit[1])
        m.fields[f[0]] = m.fields[f[0]].store(rec, val)

    # structs -------------------------------------------------------
    def loadstruct(self, addr, size):
        r = self.chunkat(addr)
        if r is None or r[0] == "null":
            self.ctx.fail(self.lab("read of a structure not owned here"), kind="ub")
        ch, d = r
        dc = cval(simp(d))
        self.ctx.prove(And(le(0, d), le(add(d, size), ch.size)), self.lab("structure read stays inside %s" % (ch.name or "block")), fatal=True, kind="ub")
        if dc is None or any(self._seg_const(s, dc) for s in ch.segs):
            for s in ch.segs:
                if s.stride != size: continue
                q = divexact(simp(sub(d, s.off)), s.stride)
                if q is None: continue
                q = simp(q)
                self.ctx.prove(And(le(0, q), lt(q, s.count)), self.lab("index within %s" % (ch.name or "array")), fatal=True, kind="ub")
                sv = StructVal(size, {})
                for fo, (z, a) in s.fields.items(): sv.cells[fo] = (z, a.signed, a.get(self.ctx, q))
                return sv
            raise Unsupported("structure read at symbolic offset")
        sv = StructVal(size, {}, {}, [])
        for o, x in ch.cells.items():
            if dc <= o and o + x[0] <= dc + size: sv.cells[o - dc] = x
        for k, v in ch.bfs.items():
            if dc <= k[0] < dc + size: sv.bfs[(k[0] - dc, k[1], k[2])] = v
        for o, n in ch.zeros:
            a, b = max(o, dc), min(o + n, dc + size)
            if a < b: sv.zeros.append((a - dc, b - a))
        if ch.init:
            sv.init_from = ch
        return sv

    def storestruct(self, addr, sv):
        r = self.chunkat(addr)
        if r is None or r[0] == "null":
            self.ctx.fail(self.lab("write of a structure not owned here"), kind="ub")
        ch, d = r
        if ch.ro: self.ctx.fail(self.lab("write to %s outside the frame" % ch.name), kind="frame")
        dc = cval(simp(d))
        self.ctx.prove(And(le(0, d), le(add(d, sv.size), ch.size)), self.lab("structure write stays inside %s" % (ch.name or "block")), fatal=True, kind="ub")
        if dc is None or any(self._seg_const(s, dc) for s in ch.segs) or (ch.segs and dc not in ch.cells):
            for s in ch.segs:
                if s.stride != sv.size: continue
                q = divexact(simp(sub(d, s.off)), s.stride)
                if q is None: continue
                q = simp(q)
                self.ctx.prove(And(le(0, q), lt(q, s.count)), self.lab("index within %s" % (ch.name or "array")), fatal=True, kind="ub")
                for o, (z, sg, v) in sv.cells.items():
                    a = self.segarr(ch, s, o, z, sg)
                    s.fields[o] = (z, a.store(q, v))
                return
            raise Unsupported("structure write at symbolic offset")
        self.cleararea(ch, dc, sv.size)
        for k in [k for k in ch.bfs if dc <= k[0] < dc + sv.size]: del ch.bfs[k]
        for o, x in sv.cells.items(): ch.cells[o + dc] = x
        for k, v in sv.bfs.items(): ch.bfs[(k[0] + dc, k[1], k[2])] = v
        for o, n in sv.zeros: ch.zeros.append((o + dc, n))

    # ------------------------------------------------------------------ lvalues
    def lv(self, n):
        k = n["kind"]
        if k == "ParenExpr": return self.lv(n["inner"][0])
        if k == "DeclRefExpr":
            d = n["referencedDecl"]; did = d["id"]
            if d["kind"] == "FunctionDecl": return LV("fn", d["name"], self.ty(n))
            for fr in (self.fr,):
                if did in fr.env: return LV("var", did, fr.types[did])
                if did in fr.mem: return LV("mem", fr.mem[did], fr.types[did], None, dict(abase=fr.mem[did]))
                if did in fr.va: return LV("va", did, fr.types[did])
            return self.globalvar(did, n)
        if k == "UnaryOperator" and n["opcode"] == "*":
            a = self.ev(n["inner"][0])
            t = self.ty(n)
            if t[0] == "fn": return LV("mem", a, t)
            return LV("mem", a, t, None, dict(stride=self.tu.sizeof(t), abase=None, volatile="volatile" in n["type"]["qualType"]))
        if k == "ArraySubscriptExpr":
            b, i = n["inner"]
            if self.ty(b)[0] not in ("ptr", "arr"): b, i = i, b
            base = self.ev(b); idx = self.ev(i)
            t = self.ty(n); sz = self.tu.sizeof(t)
            h = dict(stride=sz, abase=base)
            if b["kind"] == "ImplicitCastExpr" and b.get("castKind") == "ArrayToPointerDecay":
                at = self.ty(b["inner"][0])
                if at[0] == "arr" and isinstance(at[2], int) and at[2] > 1: h["acount"] = at[2]
            return LV("mem", simp(add(base, mul(idx, sz))), t, None, h)
        if k == "MemberExpr":
            fd = n["referencedMemberDecl"]
            r, fi = self.tu.field_of[fd]
            f = r.fields[fi]
            if n.get("isArrow"): base = self.ev(n["inner"][0]); sub_hint = None
            else:
                b = n["inner"][0]
                l = self.lv_or_temp(b)
                if l.k != "mem": raise Unsupported("member of %s" % l.k)
                base = l.v; sub_hint = l.hint
            t = f[2] if f[2][0] != "inc" else self.ty(n)
            h = dict(rec=r, recbase=base, field=f[0])
            if sub_hint and sub_hint.get("stride"): h["stride"] = sub_hint["stride"]; h["abase"] = sub_hint.get("abase")
            if sub_hint and sub_hint.get("rec") is not None: h["outer"] = sub_hint
            if t[0] == "arr" : h = dict(abase=simp(add(base, f[1])), **{k_: v_ for k_, v_ in h.items() if k_ not in ("stride", "abase")})
            return LV("mem", simp(add(base, f[1])), t, f[3], h)
        if k in ("ImplicitCastExpr", "CStyleCastExpr") and n.get("castKind") in ("NoOp", "LValueBitCast"):
            l = self.lv(n["inner"][0]); return l
        if k == "CompoundLiteralExpr":
            t = self.ty(n)
            ch = self.newlocal("lit", t)
            self.initialise(ch.base, t, n["inner"][0])
            return LV("mem", ch.base, t, None, dict(abase=ch.base))
        if k == "StringLiteral":
            return LV("mem", self.strlit(n), self.ty(n))
        if k == "StmtExpr": raise Unsupported("statement expression as lvalue")
        if k == "CallExpr":
            return self.lv_or_temp(n)
        raise Unsupported("lvalue %s" % k)

    def lv_or_temp(self, n):
        if n["kind"] in ("CallExpr", "ConditionalOperator", "StmtExpr") or (n["kind"] == "ImplicitCastExpr" and n["castKind"] == "LValueToRValue"):
            v = self.ev(n)
            if isinstance(v, StructVal):
                ch = self.newlocal("tmp", self.ty(n))
                self.storestruct(ch.base, v)
                return LV("mem", ch.base, self.ty(n))
            raise Unsupported("temporary")
        return self.lv(n)

    def newlocal(self, name, t):
        sz = self.tu.sizeof(t)
        b = self.ctx.newbase("&" + name)
        ch = Chunk(b, sz, "local", False, name)
        self.ctx.addchunk(ch)
        self.fr.locals.append(ch)
        return ch

    def globalvar(self, did, n):
        d = self.tu.decl.get(did)
        name = d["name"]
        t = self.tu.ptype(d["type"])
        if did not in self.statics:
            b = self.ctx.newbase("&" + name)
            ch = Chunk(b, self.tu.sizeof(t), "static", False, name, init=True)
            self.ctx.addchunk(ch)
            self.statics[did] = ch
            if d.get("inner") and any(c.get("kind", "").endswith(("Expr", "Literal", "Operator")) for c in d["inner"]):
                init = [c for c in d["inner"] if c.get("kind", "").endswith(("Expr", "Literal", "Operator"))][-1]
                ch.init = False
                self.initialise(ch.base, t, init)
                ch.ro = True
        ch = self.statics[did]
        return LV("mem", ch.base, t, None, dict(abase=ch.base))

    def strlit(self, n):
        v = n["value"]
        if v not in self.lits:
            import ast
            s = v
            try: bs = ast.literal_eval("b" + s) if s.startswith('"') else ast.literal_eval(s)
            except Exception: bs = s.strip('"').encode("latin1", "replace")
            bs = [x - 256 if x > 127 else x for x in bs] + [0]
            b = self.ctx.newbase("lit")
            ch = Chunk(b, len(bs), "static", False, "literal " + v[:20], init=True)
            ch.ro = True
            ch.segs.append(Seg(0, 1, len(bs), {0: (1, Lit(bs))}))
            ch.nuls = [bs.index(0)]
            ch.text = bs[:-1]
            self.ctx.addchunk(ch)
            self.lits[v] = ch
        return self.lits[v].base

    def addr_of(self, l):
        if l.k == "fn": return self.faddr(l.v)
        if l.k == "mem": return l.v
        raise Unsupported("address of %s" % l.k)

    def rd(self, l):
        if l.k == "var":
            v = self.fr.env[l.v]
            if v is UNINIT:
                self.ctx.fail(self.lab("read of uninitialised variable %s" % self.tu.decl[l.v]["name"]), kind="ub")
            return v
        if l.k == "fn": return self.faddr(l.v)
        if l.k == "mem":
            if l.ty[0] == "fn": return l.v
            if l.ty[0] == "arr": return l.v
            return self.load(l.v, l.ty, l.hint, l.bit)
        if l.k == "va": return self.fr.va[l.v]
        raise Unsupported("read")

    def wr(self, l, v):
        if l.k == "var":
            if isinstance(v, z3.ExprRef): self.ctx.keep.append(v)
            self.fr.env[l.v] = v
        elif l.k == "mem":
            if l.hint and l.hint.get("volatile") and cval(simp(l.v)) == 0: raise TrapEx()
            self.store(l.v, l.ty, v, l.hint, l.bit)
        else: raise Unsupported("write to %s" % l.k)

    # ------------------------------------------------------------------ expressions
    def ev(self, n):
        m = getattr(self, "e_" + n["kind"], None)
        if m is None: raise Unsupported("expression %s" % n["kind"])
        return m(n)

    def cond(self, n):
        """truth value of an expression as a formula"""
        k = n["kind"]
        if k == "ParenExpr": return self.cond(n["inner"][0])
        if k == "ImplicitCastExpr" and n["castKind"] in ("IntegralCast", "IntegralToBoolean", "PointerToBoolean", "NoOp"):
            i = n["inner"][0]
            if n["castKind"] == "IntegralCast" and self.tu.sizeof(self.ty(n)) < self.tu.sizeof(self.ty(i)): return self.truth(self.ev(n))
            return self.cond(i)
        if k == "UnaryOperator" and n["opcode"] == "!": return Not(self.cond(n["inner"][0]))
        if k == "BinaryOperator" and n["opcode"] in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(n)
        if k == "BinaryOperator" and n["opcode"] in ("&&", "||"):
            a, b = n["inner"]
            ca = simp(self.cond(a))
            if n["opcode"] == "&&":
                if ca is False: return False
                if self.pure(b): return And(ca, self.cond(b))
                if not self.ctx.branch(ca): return False
                return self.cond(b)
            else:
                if ca is True: return True
                if self.pure(b): return Or(ca, self.cond(b))
                if self.ctx.branch(ca): return True
                return self.cond(b)
        return self.truth(self.ev(n))

    def pure(self, n):
        """evaluation cannot fail, branch or change anything"""
        k = n["kind"]
        if k in ("IntegerLiteral", "CharacterLiteral", "ConstantExpr", "UnaryExprOrTypeTraitExpr"): return True
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            if d["kind"] == "EnumConstantDecl": return True
            return d["id"] in self.fr.env and self.fr.env[d["id"]] is not UNINIT
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr"):
            if k != "ParenExpr" and n["castKind"] not in ("LValueToRValue", "NoOp", "IntegralCast", "IntegralToBoolean", "PointerToBoolean", "NullToPointer", "BitCast"): return False
            return self.pure(n["inner"][0])
        if k == "UnaryOperator": return n["opcode"] in ("!",) and self.pure(n["inner"][0])
        if k == "BinaryOperator":
            if n["opcode"] in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"): return all(self.pure(c) for c in n["inner"])
            if n["opcode"] in ("+", "-") and self.ty(n)[0] == "ptr" : return all(self.pure(c) for c in n["inner"])
            return False
        return False

    def compare(self, n):
        a, b = n["inner"]
        x, y = self.ev(a), self.ev(b)
        t = self.ty(a)
        op = n["opcode"]
        if t[0] == "flt":
            f = z3.Function("f" + {"==": "eq", "!=": "eq", "<": "lt", ">": "lt", "<=": "le", ">=": "le"}[op], INT, INT, z3.BoolSort())
            if op in (">", ">="): x, y = y, x
            r = f(T(x), T(y))
            return Not(r) if op == "!=" else r
        if op == "==": return eq(x, y)
        if op == "!=": return Not(eq(x, y))
        if op == "<": return lt(x, y)
        if op == ">": return lt(y, x)
        if op == "<=": return le(x, y)
        return le(y, x)

    def e_ParenExpr(self, n): return self.ev(n["inner"][0])
    def e_ConstantExpr(self, n):
        if "value" in n:
            try: return int(n["value"])
            except ValueError: pass
        return self.ev(n["inner"][0])
    def e_IntegerLiteral(self, n): return int(n["value"])
    def e_CharacterLiteral(self, n):
        v = int(n["value"]); t = self.ty(n)
        return self.wrap(v, t)
    def e_FloatingLiteral(self, n):
        f = z3.Const("flit_" + str(n["value"]), INT)
        return f
    def e_StringLiteral(self, n): return self.strlit(n)
    def e_PredefinedExpr(self, n): return self.ev(n["inner"][0])
    def e_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        if d["kind"] == "EnumConstantDecl": return self.tu.enumc[d["id"]]
        return self.rd(self.lv(n))
    def e_ArraySubscriptExpr(self, n): return self.rd(self.lv(n))
    def e_MemberExpr(self, n): return self.rd(self.lv(n))
    def e_CompoundLiteralExpr(self, n):
        l = self.lv(n)
        return l.v if l.ty[0] == "arr" else self.rd(l)
    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n["name"] == "sizeof":
            if "argType" in n: return self.tu.sizeof(self.tu.ptype(n["argType"]))
            return self.tu.sizeof(self.exprtype(n["inner"][0]))
        raise Unsupported(n["name"])
    def exprtype(self, n):
        while n["kind"] == "ParenExpr": n = n["inner"][0]
        if n["kind"] == "MemberExpr":
            r, fi = self.tu.field_of[n["referencedMemberDecl"]]
            return r.fields[fi][2]
        return self.ty(n)
    def e_OffsetOfExpr(self, n):
        raise Unsupported("offsetof")
    def e_ImplicitValueInitExpr(self, n):
        t = self.ty(n)
        if t[0] in ("rec", "arr"):
            s = self.tu.sizeof(t); return StructVal(s, {}, {}, [(0, s)])
        return 0
    def e_StmtExpr(self, n):
        raise Unsupported("statement expression")
    def e_RecoveryExpr(self, n): raise Unsupported("recovery expression")

    def e_ImplicitCastExpr(self, n): return self.cast(n)
    def e_CStyleCastExpr(self, n): return self.cast(n)
    def cast(self, n):
        ck = n["castKind"]; i = n["inner"][0]
        if ck == "LValueToRValue": return self.rd(self.lv(i)) if i["kind"] != "ConditionalOperator" else self.ev(i)
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            while i["kind"] == "ParenExpr": i = i["inner"][0]
            if i["kind"] == "DeclRefExpr" and i["referencedDecl"]["kind"] == "FunctionDecl": return self.faddr(i["referencedDecl"]["name"])
            l = self.lv(i)
            return l.v if l.k == "mem" else self.addr_of(l)
        if ck == "ArrayToPointerDecay":
            if i["kind"] == "StringLiteral": return self.strlit(i)
            l = self.lv_or_temp(i)
            if l.k == "va": return ("va", l.v)
            return l.v
        if ck in ("NoOp", "BitCast"):
            return self.ev(i)
        if ck == "NullToPointer": return 0
        if ck in ("IntegralCast",):
            k = i
            if self.ty(n)[0] == "bool" : return self.b2i(self.cond(i))
            return self.wrap(self.ev(i), self.ty(n))
        if ck == "IntegralToBoolean" or ck == "PointerToBoolean": return self.b2i(self.cond(i))
        if ck == "IntegralToPointer": return self.wrap(self.ev(i), ("ptr", ("void",)))
        if ck == "PointerToIntegral": return self.wrap(self.ev(i), self.ty(n))
        if ck == "ToVoid":
            self.ev(i); return None
        if ck == "IntegralToFloating":
            v = self.ev(i); f = z3.Function("i2f%d" % self.tu.sizeof(self.ty(n)), INT, INT); return f(T(v))
        if ck == "FloatingToIntegral":
            v = self.ev(i); t = self.ty(n)
            f = z3.Function("f2i%d%s" % (t[1], t[2]), INT, INT); r = f(T(v))
            lo, hi = irange(t[1], t[2]); self.ctx.assume(And(le(lo, r), le(r, hi)))
            if getattr(self.spec, "f2i", None): self.spec.f2i(self, v, r)
            return r
        if ck == "FloatingCast":
            v = self.ev(i); a, b = self.tu.sizeof(self.ty(i)), self.tu.sizeof(self.ty(n))
            return z3.Function("fcast_%d_%d" % (a, b), INT, INT)(T(v))
        if ck == "FloatingToBoolean": return self.b2i(Not(z3.Function("feq", INT, INT, z3.BoolSort())(T(self.ev(i)), z3.IntVal(0))))
        raise Unsupported("cast %s" % ck)

    def e_UnaryOperator(self, n):
        op = n["opcode"]; i = n["inner"][0]
        if op == "&":
            x = i
            while x["kind"] == "ParenExpr": x = x["inner"][0]
            return self.addr_of(self.lv(x))
        if op == "*": return self.rd(self.lv(n))
        if op == "!": return self.b2i(Not(self.cond(i)))
        if op in ("++", "--"):
            l = self.lv(i); v = self.rd(l)
            if l.ty[0] == "ptr": d = self.tu.sizeof(l.ty[1])
            else: d = 1
            w = add(v, d) if op == "++" else sub(v, d)
            w = simp(w)
            if l.ty[0] == "int":
                if l.ty[2] and l.ty[1] >= 4:
                    lo, hi = irange(l.ty[1], True)
                    if not self.ctx.inrange(w, lo, hi): self.ub(And(le(lo, w), le(w, hi)), "signed %s does not overflow" % op)
                else: w = self.wrap(w, l.ty)
            self.wr(l, w)
            return v if n.get("isPostfix") else w
        v = self.ev(i); t = self.ty(n)
        if t[0] == "flt":
            return z3.Function("fneg", INT, INT)(T(v)) if op == "-" else v
        if op == "-":
            r = simp(sub(0, v))
            return self.arith(r, t)
        if op == "+": return v
        if op == "~":
            return self.wrap(simp(sub(-1, v)), t)
        if op == "__extension__": return v
        raise Unsupported("unary " + op)

    def arith(self, r, t, what="arithmetic"):
        if t[0] == "int" and t[2]:
            lo, hi = irange(t[1], True)
            if isc(r):
                if not lo <= r <= hi: self.ub(False, "signed %s does not overflow" % what)
                return r
            if not self.ctx.inrange(r, lo, hi): self.ub(And(le(lo, r), le(r, hi)), "signed %s does not overflow" % what)
            return r
        return self.wrap(r, t)

    def e_BinaryOperator(self, n):
        op = n["opcode"]; a, b = n["inner"]
        if op == "=":
            t = self.ty(a)
            l = self.lv(a)
            v = self.ev(b)
            # right side may have changed nothing about the location (C leaves the order unspecified)
            self.wr(l, v)
            if l.bit is not None: return self.rd(l)
            return v
        if op == ",":
            self.ev(a); return self.ev(b)
        if op in ("&&", "||", "==", "!=", "<", ">", "<=", ">="): return self.b2i(self.cond(n))
        x, y = self.ev(a), self.ev(b)
        return self.binop(op, x, y, self.ty(n), self.ty(a), self.ty(b))

    def binop(self, op, x, y, t, ta, tb):
        if t[0] == "ptr":
            if ta[0] in ("ptr", "arr"): s = self.tu.sizeof(ta[1]); d = mul(y, s)
            else: s = self.tu.sizeof(tb[1]); x, y = y, x; d = mul(y, s)
            return simp(add(x, d) if op == "+" else sub(x, d))
        if op == "-" and ta[0] == "ptr" and tb[0] == "ptr":
            s = self.tu.sizeof(ta[1]); d = simp(sub(x, y))
            q = divexact(d, s)
            if q is None: q = T(d) / s
            return q
        if t[0] == "flt":
            return z3.Function("f" + {"+": "add", "-": "sub", "*": "mul", "/": "div"}[op] + str(t[1]), INT, INT, INT)(T(x), T(y))
        if op == "+": return self.arith(simp(add(x, y)), t, "addition")
        if op == "-": return self.arith(simp(sub(x, y)), t, "subtraction")
        if op == "*": return self.arith(simp(mul(x, y)), t, "multiplication")
        if op in ("/", "%"):
            self.ub(ne(y, 0), "divisor is not zero")
            if isc(x) and isc(y):
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return q if op == "/" else x - q * y
            if t[0] == "int" and t[2]:
                lox = self.ctx.valid(And(ge(x, 0), gt(y, 0)))
                if not lox: raise Unsupported("signed division of possibly negative value")
            r = T(x) / T(y) if op == "/" else T(x) % T(y)
            if not isc(y): self.ctx.assume(And(ge(r, 0), le(r, x)) if op == "/" else And(ge(r, 0), lt(r, y)))
            return r
        if op == "<<":
            k = self.concrete_small(y)
            v = simp(mul(x, 1 << k))
            if t[2]:
                self.ub(ge(x, 0), "left shift of a non-negative value")
                return self.arith(v, t, "shift")
            return self.wrap(v, t)
        if op == ">>":
            k = self.concrete_small(y)
            if isc(x): return x >> k
            return T(x) / (1 << k)
        if op in ("&", "|", "^"): return self.bitop(op, x, y, t)
        raise Unsupported("operator " + op)

    def concrete_small(self, y):
        c = cval(simp(y))
        if c is not None: return c
        a, b = self.ctx.iv(y)
        if a is None or b is None or b - a > 64: a, b = 0, 63
        i = self.ctx.choose([eq(y, k) for k in range(a, b + 1)])
        return a + i

    def maskand(self, x, m):
        if isc(x): return x & m
        r = 0; k = 0
        while m >> k:
            if not (m >> k) & 1: k += 1; continue
            j = k
            while (m >> j) & 1: j += 1
            part = x if k == 0 else T(x) / (1 << k)
            a, b = self.ctx.iv(part)
            if a is None or b is None or a < 0 or b >= 1 << (j - k): part = T(part) % (1 << (j - k))
            r = add(r, mul(part, 1 << k)); k = j
        return r

    def bitop(self, op, x, y, t):
        if isc(y) and not isc(x): pass
        elif isc(x) and not isc(y): x, y = y, x
        if isc(x) and isc(y):
            return self.wrap({"&": x & y, "|": x | y, "^": x ^ y}[op], t)
        if op == "&" and isc(y) and y >= 0: return self.maskand(x, y)
        if op == "|" and isc(y) and y >= 0: return simp(sub(add(x, y), self.maskand(x, y)))
        if op == "|":
            for p, q in ((x, y), (y, x)):
                a, b = self.ctx.iv(q)
                if a is not None and b is not None and a >= 0:
                    k = b.bit_length()
                    at, c0 = lin(p)
                    if c0 % (1 << k) == 0 and all(c % (1 << k) == 0 for _, c in at.values()): return simp(add(p, q))
                    if self.ctx.valid(eq(T(p) % (1 << k), 0)): return simp(add(p, q))
        if op == "&":
            f = z3.Function("band", INT, INT, INT); r = f(T(x), T(y))
            self.ctx.keep.append(r)
            lo, hi = irange(t[1], False)
            if self.ctx.valid(And(ge(x, 0), ge(y, 0))):
                self.ctx.assume(And(ge(r, 0), le(r, x), le(r, y)))
                return r
        raise Unsupported("bit operation %s on symbolic operands" % op)

    def e_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]; a, b = n["inner"]
        l = self.lv(a); y = self.ev(b); x = self.rd(l)
        ct = self.tu.ptype(n["computeResultType"]) if "computeResultType" in n else self.ty(n)
        if l.ty[0] == "ptr":
            s = self.tu.sizeof(l.ty[1])
            r = simp(add(x, mul(y, s)) if op == "+" else sub(x, mul(y, s)))
        else:
            lt_ = self.tu.ptype(n["computeLHSType"]) if "computeLHSType" in n else ct
            x2 = self.wrap(x, lt_) if lt_[0] == "int" and l.ty[0] != "flt" else x
            r = self.binop(op, x2, y, ct, lt_, self.ty(b))
            if l.ty[0] in ("int", "bool"): r = self.wrap(r, l.ty)
        self.wr(l, r)
        return r

    def e_ConditionalOperator(self, n):
        c, a, b = n["inner"]
        cc = simp(self.cond(c))
        if isinstance(cc, bool): return self.ev(a if cc else b)
        if self.pure(a) and self.pure(b) and self.ty(n)[0] == "int":
            return If(cc, self.ev(a), self.ev(b))
        return self.ev(a if self.ctx.branch(cc) else b)

    def e_VAArgExpr(self, n):
        v = self.valist(n["inner"][0])
        return self.va_next(v, self.ty(n))

    def valist(self, n):
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr"): n = n["inner"][0]
        if n["kind"] == "UnaryOperator" and n["opcode"] == "&":
            return self.valist(n["inner"][0])
        if n["kind"] == "DeclRefExpr":
            did = n["referencedDecl"]["id"]
            if did in self.fr.va: return self.fr.va[did]
            if did in self.fr.env:
                v = self.fr.env[did]
                if isinstance(v, VaList): return v
        raise Unsupported("va_list expression")

    def va_next(self, v, ty):
        if v.state != "ready":
            self.ctx.fail(self.lab("va_arg on a va_list that is %s" % v.state), kind="ub")
        p = v.pack
        if p.args is not None:
            if v.pos >= len(p.args):
                self.ctx.fail(self.lab("va_arg past the last argument"), kind="ub")
            r = p.args[v.pos]; v.pos = v.pos + 1
            return self.wrap(r, ty) if ty[0] == "int" else r
        r = p.get(self, v.pos, ty) if p.get else None
        if r is None: raise Unsupported("symbolic variable arguments")
        v.pos = add(v.pos, 1)
        return r

    def e_InitListExpr(self, n):
        t = self.ty(n)
        if t[0] in ("rec", "arr"):
            ch = self.newlocal("init", t)
            self.initialise(ch.base, t, n)
            v = self.loadstruct(ch.base, self.tu.sizeof(t))
            self.ctx.heap.remove(ch); self.fr.locals.remove(ch)
            return v
        return self.ev(n["inner"][0])

    def initialise(self, base, t, n):
        if n["kind"] == "InitListExpr":
            if t[0] == "arr":
                if t[2] and self.tu.sizeof(t[1]) * t[2] > 4096 and not n.get("inner"):
                    return self.memset(base, 0, self.tu.sizeof(t))
                inn = list(n.get("inner", [])); filler = n.get("array_filler")
                if filler: inn = [x for x in filler[1:]]
                es = self.tu.sizeof(t[1])
                for i, x in enumerate(inn): self.initialise(simp(add(base, i * es)), t[1], x)
                rest = (t[2] or len(inn)) - len(inn)
                if rest > 0: self.memset(simp(add(base, len(inn) * es)), 0, rest * es)
                return
            if t[0] == "rec":
                r = self.tu.recs[t[1]]
                if r.union:
                    self.memset(base, 0, r.size)
                    fd = n.get("field")
                    if n.get("inner"):
                        f = r.fields[0]
                        if fd:
                            for g in r.fields:
                                if g[4] == fd["id"]: f = g
                        self.initialise(base, f[2], n["inner"][0])
                    return
                inn = n.get("inner", [])
                for f, x in zip(r.fields, inn):
                    a = simp(add(base, f[1]))
                    if x["kind"] == "ImplicitValueInitExpr" and f[3] is None: self.memset(a, 0, self.tu.sizeof(f[2]))
                    elif f[3] is not None: self.store(a, f[2], self.ev(x), None, f[3])
                    else: self.initialise(a, f[2], x)
                return
            return self.store(base, t, self.ev(n["inner"][0]) if n.get("inner") else 0)
        if t[0] == "arr":
            x = n
            while x["kind"] in ("ParenExpr", "ImplicitCastExpr"): x = x["inner"][0]
            if x["kind"] == "StringLiteral":
                lit = self.strlit(x); lc, _ = self.ctx.find(lit)
                bs = list(lc.text) + [0]
                tot = t[2] or len(bs)
                ch, d = self.ctx.find(base)
                d = cval(simp(d))
                for i in range(tot): ch.cells[d + i] = (1, True, bs[i] if i < len(bs) else 0)
                return
            if x["kind"] == "ImplicitValueInitExpr": return self.memset(base, 0, self.tu.sizeof(t))
            raise Unsupported("array initialiser")
        v = self.ev(n)
        self.store(base, t, v)

    # ------------------------------------------------------------------ calls
    def e_CallExpr(self, n):
        fn = n["inner"][0]; args = n["inner"][1:]
        x = fn
        while x["kind"] in ("ImplicitCastExpr", "ParenExpr"): x = x["inner"][0]
        name = None
        if x["kind"] == "DeclRefExpr" and x["referencedDecl"]["kind"] == "FunctionDecl":
            name = x["referencedDecl"]["name"]
        rt = self.ty(n)
        if name is not None:
            b = self.spec.builtin(self, name) or getattr(self, "b_" + name, None)
            if b is not None and name not in self.tu.funcs: return b(n, args)
            return self.callname(name, self.args(args, name), rt, n)
        target = self.ev(fn)
        vals = self.args(args, None)
        return self.callptr(target, vals, rt, n)

    def args(self, args, name):
        out = []
        for a in args:
            t = self.tu.ptype(a["type"])
            x = a
            while x["kind"] in ("ParenExpr",): x = x["inner"][0]
            if "va_list" in a["type"]["qualType"]:
                out.append(self.valist(a)); continue
            v = self.ev(a)
            if isinstance(v, tuple) and v[0] == "va": v = self.fr.va[v[1]]
            if isinstance(v, z3.ExprRef): self.ctx.keep.append(v)
            out.append(v)
        return out

    def callptr(self, target, vals, rt, n):
        nm = self.fname(target)
        if nm is not None:
            b = self.spec.builtin(self, nm)
            return self.callname(nm, vals, rt, n)
        r = self.spec.fnptr(self, target, vals, rt)
        if r is NotImplemented: raise Unsupported("call through an unknown function pointer")
        return r

    def callname(self, name, vals, rt, n=None):
        c = self.spec.contract(name)
        if c is not None:
            return self.applycontract(c, name, vals, rt)
        f = self.tu.funcs.get(name)
        if f is None:
            b = getattr(self, "v_" + name, None)
            if b is not None: return b(vals)
            raise Unsupported("external function %s" % name)
        if any(fr.name == name for fr in self.frames): raise Annot("recursive function %s has no contract" % name)
        if len(self.frames) > 14: raise Unsupported("call depth")
        self.spec.inlined.add(name)
        return self.callbody(f, name, vals)

    def applycontract(self, c, name, vals, rt):
        from .dsl import A
        ctx = self.ctx
        f = self.tu.funcs.get(name) or self.tu.protos.get(name) if hasattr(self.tu, "protos") else self.tu.funcs.get(name)
        if f is not None and f.get("variadic"):
            k = len(self.params(f)); rest = vals[k:]
            vals = list(vals[:k]) + [rest[0] if len(rest) == 1 and isinstance(rest[0], Pack) else Pack(rest)]
        w0 = ctx.where
        ctx.where = (w0 + " > " if w0 else "") + self.fr.name + " calls " + name
        try:
            a = A(self, False)
            g = c.pre(a, *vals)
            t = c.trap(a, g, *vals)
            if t is not False:
                if ctx.branch(t): raise TrapEx()
            a.finish()
            a2 = A(self, True)
            ret = self.freshval(rt, "ret_" + name) if rt[0] != "void" else None
            r2 = c.post(a2, g, ret, *vals)
            if r2 is not None: ret = r2
            self.spec.used.add(c.name)
            return ret
        finally: ctx.where = w0

    def params(self, f): return [c for c in f.get("inner", []) if c["kind"] == "ParmVarDecl"]

    def scan(self, f):
        """address-taken locals, loops in source order"""
        nm = f["name"]
        cache = self.tu.__dict__.setdefault("_scan", {})
        if f["id"] in cache: return cache[f["id"]]
        taken, loops = set(), []
        def go(x):
            if not isinstance(x, dict): return
            k = x.get("kind")
            if k == "UnaryOperator" and x.get("opcode") == "&":
                y = x["inner"][0]
                while y["kind"] in ("ParenExpr",): y = y["inner"][0]
                if y["kind"] == "DeclRefExpr": taken.add(y["referencedDecl"]["id"])
            if k in ("ForStmt", "WhileStmt") or k == "DoStmt" and not self.is_false(x["inner"][1]): loops.append(x["id"])
            for c in x.get("inner", []): go(c)
        go(f)
        cache[f["id"]] = (taken, {l: i for i, l in enumerate(loops)})
        return cache[f["id"]]

    def callbody(self, f, name, vals):
        fr = Frame(f, name)
        fr.taken, fr.loops = self.scan(f)
        ps = self.params(f)
        self.frames.append(fr)
        try:
            for i, p in enumerate(ps):
                t = self.tu.ptype(p["type"])
                if t[0] == "arr": t = ("ptr", t[1])
                v = vals[i]
                fr.types[p["id"]] = t; fr.names[p.get("name", "")] = p["id"]
                if isinstance(v, VaList): fr.va[p["id"]] = v; continue
                if t[0] == "rec" or p["id"] in fr.taken:
                    ch = self.newlocal(p["name"], t); fr.mem[p["id"]] = ch.base
                    self.store(ch.base, t, v)
                else: fr.env[p["id"]] = v
            if f.get("variadic"):
                rest = vals[len(ps):]
                fr.pack = rest[0] if len(rest) == 1 and isinstance(rest[0], Pack) else Pack(rest)
            body = [c for c in f["inner"] if c["kind"] == "CompoundStmt"][0]
            ret = None
            try:
                self.st(body)
            except ReturnEx as r: ret = r.v
            except GotoEx as g: raise Unsupported("goto %s" % g.l)
            for ch in fr.locals:
                if ch in self.ctx.heap: self.ctx.heap.remove(ch)
            return ret
        finally:
            self.frames.pop()

    # ------------------------------------------------------------------ statements
    def st(self, n):
        k = n.get("kind")
        m = getattr(self, "s_" + k, None) if k else None
        if m is not None: return m(n)
        if k is None: return
        if k.endswith(("Expr", "Operator", "Literal")):
            self.ev(n); return
        raise Unsupported("statement %s" % k)

    def s_CompoundStmt(self, n): self.seq(n.get("inner", []))

    def seq(self, stmts):
        i = 0; hops = 0
        while i < len(stmts):
            try:
                self.st(stmts[i]); i += 1
            except GotoEx as g:
                j = None
                for q, s in enumerate(stmts):
                    y = s
                    while y.get("kind") == "LabelStmt":
                        if y.get("declId") == g.l or y.get("name") == g.l: j = q; break
                        y = y["inner"][0]
                    if j is not None: break
                if j is None: raise
                hops += 1
                if hops > 40: raise Unsupported("goto loop")
                i = j

    def s_LabelStmt(self, n): self.st(n["inner"][0])
    def s_GotoStmt(self, n): raise GotoEx(n["targetLabelDeclId"])
    def s_NullStmt(self, n): pass
    def s_BreakStmt(self, n): raise BreakEx()
    def s_ContinueStmt(self, n): raise ContinueEx()
    def s_ReturnStmt(self, n):
        v = self.ev(n["inner"][0]) if n.get("inner") else None
        raise ReturnEx(v)
    def s_AttributedStmt(self, n): self.st(n["inner"][-1])

    def s_DeclStmt(self, n):
        for d in n["inner"]:
            if d["kind"] == "VarDecl": self.vardecl(d)

    def vardecl(self, d):
        fr = self.fr
        t = self.tu.ptype(d["type"]); did = d["id"]
        fr.types[did] = t; fr.names[d["name"]] = did
        init = [c for c in d.get("inner", []) if c.get("kind", "").endswith(("Expr", "Literal", "Operator"))]
        if d.get("storageClass") == "static":
            l = self.globalvar(did, d)
            fr.mem[did] = l.v
            return
        if t[0] == "valist" or "va_list" in d["type"]["qualType"]:
            fr.va[did] = VaList(); return
        if t[0] == "arr" and t[2] is None and init:
            raise Unsupported("array of unknown size")
        if t[0] in ("arr", "rec") or did in fr.taken:
            if did in fr.mem:
                b = fr.mem[did]
                for ch in list(self.ctx.heap):
                    if isinstance(ch, Chunk) and ch.base is b and ch in fr.locals:
                        self.ctx.heap.remove(ch); fr.locals.remove(ch)
            ch = self.newlocal(d["name"], t)
            fr.mem[did] = ch.base
            if init:
                x = init[-1]
                if t[0] == "arr" or x["kind"] == "InitListExpr": self.initialise(ch.base, t, x)
                else: self.store(ch.base, t, self.ev(x))
            return
        fr.env[did] = UNINIT
        if init: fr.env[did] = self.ev(init[-1])

    def s_IfStmt(self, n):
        inn = n["inner"]
        c = self.cond(inn[0])
        if self.ctx.branch(c): self.st(inn[1])
        elif len(inn) > 2: self.st(inn[2])

    def s_SwitchStmt(self, n):
        v = self.ev(n["inner"][0]); body = n["inner"][1]
        stmts = body.get("inner", []) if body["kind"] == "CompoundStmt" else [body]
        flat = []; labels = []; default = None
        for s in stmts:
            while s.get("kind") in ("CaseStmt", "DefaultStmt"):
                if s["kind"] == "CaseStmt":
                    if len(s["inner"]) > 2: raise Unsupported("case range")
                    labels.append((self.ev(s["inner"][0]), len(flat)))
                else: default = len(flat)
                s = s["inner"][-1]
            flat.append(s)
        conds = [eq(v, c) for c, _ in labels] + [And(*[Not(eq(v, c)) for c, _ in labels])]
        # group labels leading to the same place
        groups = {}
        for (c, p), cd in zip(labels, conds): groups.setdefault(p, []).append(cd)
        keys = sorted(groups)
        cs = [Or(*groups[k]) for k in keys] + [conds[-1]]
        i = self.ctx.choose(cs)
        start = keys[i] if i < len(keys) else default
        if start is None: return
        try: self.seq(flat[start:])
        except BreakEx: pass

    # ---- loops
    def s_ForStmt(self, n):
        init, _, cond, inc, body = (n["inner"] + [{}] * 5)[:5]
        if init.get("kind"): self.st(init)
        self.loop(n, cond if cond.get("kind") else None, inc if inc.get("kind") else None, body, False)
    def s_WhileStmt(self, n):
        inn = n["inner"]
        self.loop(n, inn[0], None, inn[-1], False)
    def s_DoStmt(self, n):
        body, cond = n["inner"][0], n["inner"][1]
        if self.is_false(cond):
            try: self.st(body)
            except (BreakEx, ContinueEx): pass
            return
        self.loop(n, cond, None, body, True)
    def is_false(self, c):
        while c["kind"] in ("ParenExpr", "ImplicitCastExpr"): c = c["inner"][0]
        return c["kind"] == "IntegerLiteral" and int(c["value"]) == 0

    def assigned(self, *nodes):
        out = set(); decls = set()
        def tgt(y):
            while y["kind"] in ("ParenExpr",): y = y["inner"][0]
            if y["kind"] == "DeclRefExpr": out.add(y["referencedDecl"]["id"])
        def go(x):
            k = x.get("kind")
            if k == "BinaryOperator" and x["opcode"] == "=" or k == "CompoundAssignOperator": tgt(x["inner"][0])
            if k == "UnaryOperator" and x["opcode"] in ("++", "--"): tgt(x["inner"][0])
            if k == "VarDecl": decls.add(x["id"])
            for c in x.get("inner", []): go(c)
        for n in nodes:
            if n: go(n)
        return out, decls

    def loop(self, n, cond, inc, body, isdo):
        fr = self.fr
        no = fr.loops.get(n["id"])
        inv = None if self.bounded else self.spec.invariant(self, fr.name, no, n)
        if inv is None: return self.unroll(n, cond, inc, body, isdo)
        ctx = self.ctx
        from .dsl import A, L
        if isdo: raise Annot("do loop with invariant")
        lab = "%s loop %d" % (fr.name, no)
        w0 = ctx.where
        asg, decls = self.assigned(cond, inc, body)
        steps = [d for d in sorted(asg) if d in fr.env and d not in decls and fr.types[d][0] == "int"]
        Lx = L(self, fr, steps)
        # 1. invariant holds on entry
        ctx.where = (w0 + " > " if w0 else "") + lab + " invariant on entry"
        a = A(self, False)
        Lx.entry = True
        inv(a, Lx); a.finish()
        # 2. arbitrary iteration
        ctx.where = w0
        for did in asg:
            if did in fr.env and did not in decls:
                fr.env[did] = self.freshval(fr.types[did], self.tu.decl[did]["name"])
        frozen = []
        for c in ctx.heap:
            if not c.ro: c.ro = True; frozen.append(c)
        lro = set(ctx.logs) - ctx.logro - a.logs_touched
        ctx.logro |= lro
        mp_touched = a.maps_touched
        a = A(self, True); a.loop = True
        Lx = L(self, fr, steps); Lx.entry = False
        for c in ctx.heap:
            if isinstance(c, MapChunk) and c.name in mp_touched and c in frozen: c.ro = False
        inv(a, Lx)
        before = list(ctx.heap)
        def thaw():
            for c in frozen: c.ro = False
            for k in lro: ctx.logro.discard(k)
        if cond is not None:
            if not ctx.branch(self.cond(cond)):
                thaw(); return
        try:
            try: self.st(body)
            except ContinueEx: pass
        except BreakEx:
            thaw(); return
        except (ReturnEx, GotoEx):
            thaw(); raise
        if inc is not None: self.ev(inc)
        ctx.where = (w0 + " > " if w0 else "") + lab + " invariant kept"
        Lx.entry = False
        nloc = [c for c in fr.locals if c in ctx.heap and c not in before]
        a = A(self, False)
        inv(a, Lx); a.finish()
        left = [c for c in ctx.heap if isinstance(c, Chunk) and not c.ro and c.kind == "heap"]
        if left: ctx.fail("memory acquired in the loop body is not covered (%s)" % left[0].name, kind="leak")
        ctx.where = w0
        raise PathEnd()

    def unroll(self, n, cond, inc, body, isdo):
        limit = self.bounded or 140
        k = 0
        first = isdo
        while True:
            if cond is not None and not first:
                c = simp(self.cond(cond))
                if not isinstance(c, bool) and not self.bounded:
                    if self.ctx.valid(c): c = True
                    elif self.ctx.valid(Not(c)): c = False
                if isinstance(c, bool):
                    if not c: return
                else:
                    if not self.bounded:
                        if not self.spec.unrollable(self.fr.name, k):
                            raise Annot("loop in %s has no invariant" % self.fr.name)
                    if not self.ctx.branch(c): return
            elif cond is None and not self.bounded and k > 40: raise Annot("loop in %s has no invariant" % self.fr.name)
            first = False
            k += 1
            if k > limit:
                if self.bounded:
                    self.spec.truncated = True
                    raise PathEnd()
                raise Annot("loop in %s has no invariant" % self.fr.name)
            try: self.st(body)
            except BreakEx: return
            except ContinueEx: pass
            if inc is not None: self.ev(inc)

    # ------------------------------------------------------------------ library models
    def a1(self, args): return [self.ev(a) for a in args]

    def b_malloc(self, n, args):
        s, = self.a1(args)
        ch = self.ctx.malloc(s, "malloc")
        return ch.base
    def b_calloc(self, n, args):
        a, b = self.a1(args)
        s = simp(mul(a, b))
        ch = self.ctx.malloc(s, "calloc")
        c = cval(s)
        if c is not None: ch.zeros.append((0, c))
        else:
            st = cval(b) if cval(b) else 1
            ch.segs.append(Seg(0, st, a if st != 1 else s, {}))
            ch.segs[-1].zero = True
        return ch.base
    def b_alloca(self, n, args):
        s, = self.a1(args)
        b = self.ctx.newbase("alloca")
        ch = Chunk(b, s, "local", False, "alloca"); self.ctx.addchunk(ch); self.fr.locals.append(ch)
        return b
    b___builtin_alloca = b_alloca

    def b_free(self, n, args):
        p, = self.a1(args)
        self.dofree(p)
    def dofree(self, p):
        ctx = self.ctx
        p = simp(p)
        if cval(p) == 0: return
        if not isc(p) and ctx.branch(eq(p, 0)): return
        r = self.chunkat(p)
        if r is None or r[0] == "null": ctx.fail(self.lab("free of memory not owned here (%s)" % str(p)[:80]), kind=self.unowned(p))
        ch, d = r
        if ch.ro: ctx.fail(self.lab("free of %s, outside the frame" % ch.name), kind="frame")
        ctx.prove(eq(d, 0), self.lab("free of the start of a block"), fatal=True, kind="ub")
        if not ch.free or ch.free == "freed": ctx.fail(self.lab("free of a block that is not heap-allocated (%s)" % ch.name), kind="ub")
        ctx.heap.remove(ch)
        for ho, hs, mp in ch.holes:
            m = self.getmap(mp)
            if m.ro: ctx.fail(self.lab("%s headers are outside the frame here" % mp), kind="frame")
            m.domarr = m.domarr.store(simp(add(ch.base, ho)), False)
        ctx.events.append(("free", ch))

    def b_realloc(self, n, args):
        p, s = self.a1(args)
        ctx = self.ctx
        p = simp(p)
        if cval(p) == 0 or (not isc(p) and ctx.branch(eq(p, 0))):
            return ctx.malloc(s, "realloc").base
        r = self.chunkat(p)
        if r is None or r[0] == "null": ctx.fail(self.lab("realloc of memory not owned here"), kind=self.unowned(p))
        ch, d = r
        if ch.ro: ctx.fail(self.lab("realloc of %s, outside the frame" % ch.name), kind="frame")
        ctx.prove(eq(d, 0), self.lab("realloc of the start of a block"), fatal=True, kind="ub")
        if not ch.free: ctx.fail(self.lab("realloc of a block that is not heap-allocated"), kind="ub")
        ctx.heap.remove(ch)
        nc = ctx.malloc(s, ch.name or "realloc")
        nc.cells, nc.bfs, nc.zeros = dict(ch.cells), dict(ch.bfs), list(ch.zeros)
        sc = cval(s)
        if sc is not None:
            nc.cells = {o: x for o, x in nc.cells.items() if o + x[0] <= sc}
        nc.nuls = list(ch.nuls)
        for sg in ch.segs:
            cnt = self._count(sub(s, sg.off), sg.stride)
            ns = Seg(sg.off, sg.stride, cnt)
            for fo, (z, a) in sg.fields.items():
                b = Base(ctx, (ch.name or "re"), z, a.signed)
                ns.fields[fo] = (z, b.copyin(0, a, 0, sg.count))
            nc.segs.append(ns)
        if getattr(ch, "holes", None): nc.holes = ch.holes; raise Unsupported("realloc of block with shared part")
        return nc.base

    def b_memset(self, n, args):
        p, v, s = self.a1(args)
        c = cval(simp(v))
        if c is None: raise Unsupported("memset with symbolic value")
        self.memset(p, c, s); return p

    def memset(self, p, v, s):
        ctx = self.ctx
        s = simp(s)
        sc = cval(s)
        if sc == 0: return
        if not isc(s) and ctx.valid(eq(s, 0)): return
        if v != 0 and sc is None: raise Unsupported("memset non-zero")
        r = self.chunkat(p)
        if r is None or r[0] == "null":
            if not isc(s) and not ctx.branch(gt(s, 0)): return
            ctx.fail(self.lab("memset of memory not owned here"), kind=self.unowned(p))
        ch, d = r
        if ch.ro: ctx.fail(self.lab("memset outside the frame"), kind="frame")
        ctx.prove(And(le(0, d), le(add(d, s), ch.size)), self.lab("memset stays inside %s" % ch.name), fatal=True, kind="ub")
        dc = cval(simp(d))
        if dc is not None and sc is not None and not ch.segs:
            self.cleararea(ch, dc, sc)
            for k in [k for k in ch.bfs if dc <= k[0] < dc + sc]: del ch.bfs[k]
            if v == 0: ch.zeros.append((dc, sc))
            else:
                for i in range(sc): ch.cells[dc + i] = (1, False, v & 255)
            return
        if not ch.segs:
            if any(o >= (dc if dc is not None else 1 << 60) for o in ch.cells): raise Unsupported("memset over cells")
            ch.segs.append(Seg(dc, 1, sub(ch.size, dc)))
        for sg in ch.segs:
            if sg.stride == 1:
                q = simp(sub(d, sg.off))
                a = self.segarr(ch, sg, 0, 1, True)
                sg.fields[0] = (1, a.copyin(q, Const(v if v < 128 else v - 256, 1, True), 0, s))
                if v == 0: ch.nuls = [q] + ch.nuls
                return
        raise Unsupported("memset on structured block")

    def bytes_at(self, p, what, n=None):
        """(chunk, seg, index) of a byte pointer"""
        r = self.chunkat(p, dict(stride=1))
        if r is None or r[0] == "null":
            self.ctx.fail(self.lab("%s of memory not owned here" % what), kind=self.unowned(p))
        ch, d = r
        d = simp(d); dc = cval(d)
        for s in ch.segs:
            if s.stride == 1 and (dc is None or not isc(s.off) or dc >= s.off):
                self.segarr(ch, s, 0, 1, True)
                return ch, s, simp(sub(d, s.off))
        if ch.segs: raise Unsupported("%s on a structured block" % what)
        off0 = 0
        if ch.cells or ch.zeros:
            if all(x[0] == 1 for x in ch.cells.values()) and cval(ch.size) is not None:
                size = cval(ch.size)
                b = Base(self.ctx, ch.name or "buf", 1, True)
                for o, nn in ch.zeros:
                    for i in range(o, o + nn): b = b.store(i, 0)
                for o, x in sorted(ch.cells.items()):
                    v = x[2]
                    if isc(v): v = v - 256 if v > 127 else v
                    elif x[1] is False: v = self.wrap(v, ("int", 1, True))
                    b = b.store(o, v)
                    if cval(v) == 0: ch.nuls.append(o)
                for o, nn in ch.zeros: ch.nuls.append(o)
                ch.cells = {}; ch.zeros = []
                s = Seg(0, 1, size, {0: (1, b)}); ch.segs.append(s)
                return ch, s, d
            if dc is None: raise Unsupported("%s on cells" % what)
            off0 = dc
            if any(o >= dc for o in ch.cells): raise Unsupported("%s over cells" % what)
        s = Seg(off0, 1, simp(sub(ch.size, off0)))
        if ch.init is False: pass
        ch.segs.append(s); self.segarr(ch, s, 0, 1, True)
        return ch, s, simp(sub(d, off0))

    def b_memcpy(self, n, args):
        d, s, k = self.a1(args)
        self.memcopy(d, s, k); return d
    b_memmove = b_memcpy

    def memcopy(self, d, s, k):
        ctx = self.ctx
        k = simp(k)
        if cval(k) == 0: return
        if not isc(k):
            if ctx.valid(eq(k, 0)): return
        rs = self.chunkat(s, dict(stride=1)); rd = self.chunkat(d, dict(stride=1))
        def bad(r): return r is None or r[0] == "null"
        if bad(rs) or bad(rd):
            if not isc(k) and ctx.branch(eq(k, 0)): return
            ctx.fail(self.lab("memory copy %s memory not owned here" % ("from" if bad(rs) else "to")), kind=self.unowned(s if bad(rs) else d))
        (sc, so), (dc, do) = rs, rd
        so, do = simp(so), simp(do)
        if dc.ro: ctx.fail(self.lab("memory copy into %s outside the frame" % dc.name), kind="frame")
        ctx.prove(And(le(0, so), le(add(so, k), sc.size), ge(k, 0)), self.lab("copy source stays inside %s" % (sc.name or "block")), fatal=True, kind="ub")
        ctx.prove(And(le(0, do), le(add(do, k), dc.size)), self.lab("copy target stays inside %s" % (dc.name or "block")), fatal=True, kind="ub")
        soc, doc, kc = cval(so), cval(do), cval(k)
        # whole-structure copy
        if soc is not None and doc is not None and (sc.cells or sc.bfs or sc.zeros or getattr(sc, "holes", None)) and not (all(x[0] == 1 for x in sc.cells.values()) and not sc.bfs and not getattr(sc, "holes", None)):
            cells = []
            for o, x in sc.cells.items():
                if o + x[0] <= soc: continue
                if kc is not None:
                    if o >= soc + kc: continue
                    if not (soc <= o and o + x[0] <= soc + kc): raise Unsupported("copy splits a field")
                elif not ctx.valid(le(o + x[0], add(soc, k))): raise Unsupported("copy may split a field")
                cells.append((o - soc + doc, x))
            if dc.segs and (cells or sc.bfs or sc.zeros or getattr(sc, "holes", None)):
                # into an array of bytes: single bytes only
                if kc is not None:
                    have = {o for o, x in cells}
                    for o in range(doc, doc + kc):
                        if o not in have and any(z <= o - doc + soc < z + m for z, m in sc.zeros): cells.append((o, (1, False, 0)))
                if kc is None or any(k0[0] < soc + kc for k0 in sc.bfs) or sc.segs or getattr(sc, "holes", None) or len(cells) != kc or any(x[0] != 1 for o, x in cells): raise Unsupported("copy of fields into an array")
                ch2, s2, i2 = self.bytes_at(d, "copy"); b = s2.fields[0][1]
                for o, x in cells:
                    v = x[2] if x[1] == b.signed else self.wrap(x[2], ("int", 1, b.signed))
                    b = b.store(simp(add(i2, o - doc)), v)
                s2.fields[0] = (1, b); return
            if kc is not None: self.cleararea(dc, doc, kc)
            for o, x in cells: dc.cells[o] = x
            for kk, v in sc.bfs.items():
                if soc <= kk[0] and (kc is None or kk[0] < soc + kc): dc.bfs[(kk[0] - soc + doc, kk[1], kk[2])] = v
            for o, nn in sc.zeros:
                if o >= soc and (kc is None or o + nn <= soc + kc): dc.zeros.append((o - soc + doc, nn))
            for sg in sc.segs:
                if ctx.valid(le(add(soc, k), sg.off)): continue
                nn = self._count(simp(sub(add(soc, k), sg.off)), sg.stride)
                off2 = simp(add(sub(sg.off, soc), doc))
                tgt = None
                for t in dc.segs:
                    if t.stride == sg.stride and ctx.same(t.off, off2): tgt = t
                if tgt is None:
                    tgt = Seg(off2, sg.stride, self._count(simp(sub(dc.size, off2)), sg.stride)); dc.segs.append(tgt)
                for fo, (z, a) in sg.fields.items():
                    b = self.segarr(dc, tgt, fo, z, a.signed)
                    tgt.fields[fo] = (z, b.copyin(0, a, 0, nn))
                dc.nuls = list(sc.nuls) + dc.nuls
            for (ho, hs, mp) in getattr(sc, "holes", ()):
                m = self.getmap(mp)
                if ho >= soc:
                    for f in m.rec.fields:
                        ctx.prove(m.dom(self, simp(add(sc.base, ho))), self.lab("copied header is live"), fatal=True, kind="ub")
                        v = m.fields[f[0]].get(ctx, simp(add(sc.base, ho)))
                        o = ho - soc + doc + f[1]
                        if f[3] is not None: dc.bfs[(o, f[3][0], f[3][1])] = v
                        else: dc.cells[o] = (self.tu.sizeof(f[2]), self.sgn(f[2]), v)
            return
        # same-stride array copy
        for ssg in sc.segs:
            if ssg.stride != 1:
                q = divexact(simp(sub(so, ssg.off)), ssg.stride); kk = divexact(k, ssg.stride)
                if q is None or kk is None: raise Unsupported("copy of a part of an element")
                tgt = None
                for t in dc.segs:
                    if t.stride == ssg.stride: tgt = t
                if tgt is None:
                    if dc.segs or dc.cells: raise Unsupported("copy between different layouts")
                    tgt = Seg(cval(do) % ssg.stride if cval(do) is not None else 0, ssg.stride, self._count(dc.size, ssg.stride)); dc.segs.append(tgt)
                q2 = divexact(simp(sub(do, tgt.off)), tgt.stride)
                if q2 is None: raise Unsupported("copy target not aligned")
                for fo, (z, a) in list(ssg.fields.items()):
                    b = self.segarr(dc, tgt, fo, z, a.signed)
                    tgt.fields[fo] = (z, b.copyin(q2, a, q, kk))
                return
        ch1, s1, i1 = self.bytes_at(s, "copy")
        ch2, s2, i2 = self.bytes_at(d, "copy")
        a = s1.fields[0][1]; b = s2.fields[0][1]
        s2.fields[0] = (1, b.copyin(i2, a, i1, k))
        # terminators that were copied along
        ch2.nuls = [simp(add(sub(w, i1), i2)) for w in ch1.nuls] + ch2.nuls

    # strings ---------------------------------------------------------
    def cstr(self, p, what="string"):
        """(array, index, length) of a NUL-terminated string"""
        ctx = self.ctx
        ch, s, i = self.bytes_at(p, what)
        arr = s.fields[0][1]
        key = ("strlen", id(arr), i if isc(i) else i.get_id())
        cache = ctx.__dict__.setdefault("_strlen", {})
        if key in cache: return arr, i, cache[key]
        lit = getattr(ch, "text", None)
        if lit is not None and isc(i):
            t = lit[i:]; L = t.index(0) if 0 in t else len(t)
            cache[key] = L; return arr, i, L
        wit = None
        for w in ch.nuls:
            if ctx.valid(And(le(i, w), lt(w, s.count), eq(arr.get(ctx, w), 0))): wit = w; break
        if wit is None:
            ctx.fail(self.lab("%s of text that is not terminated inside %s" % (what, ch.name or "its block")), kind="ub")
        n = ctx.fresh("len", 0, 1 << 47)
        ctx.assume(And(le(add(i, n), wit), eq(arr.get(ctx, simp(add(i, n))), 0)))
        def fact(t): return Implies(And(le(i, t), lt(t, add(i, n))), ne(arr.get(ctx, t), 0))
        ctx.addfact(ctx.arr_bases(arr), self._shiftfact(arr, fact))
        ctx.strfacts = getattr(ctx, "strfacts", []); ctx.strfacts.append((arr, i, n))
        cache[key] = n; self.ctx.keep.append((arr, i))
        ch.nuls.append(simp(add(i, n)))
        return arr, i, n

    def _shiftfact(self, arr, fact):
        """instantiate at the index read, and at the indices that map to it through copies"""
        shifts = []
        def go(x, sh):
            if isinstance(x, Store): go(x.p, sh)
            elif isinstance(x, Copy):
                go(x.p, sh); go(x.src, add(sh, sub(x.dst, x.s0)))
            elif isinstance(x, Base): shifts.append(sh)
        go(arr, 0)
        shifts = list({str(s): s for s in shifts}.values())
        busy = set()
        def f(t):
            out = []
            for sh in shifts:
                u = simp(add(t, sh)); k = T(u).get_id()
                if k in busy: continue
                busy.add(k); self.ctx.keep.append(T(u))
                out.append(fact(u))
            return And(*out)
        return f

    def b_strlen(self, n, args):
        p, = self.a1(args)
        return self.cstr(p, "strlen")[2]

    def b_strchr(self, n, args):
        p, c = self.a1(args); ctx = self.ctx
        r = ctx.find(simp(p)); lit = getattr(r[0], "text", None) if r else None
        if lit is None or not isc(simp(r[1])): raise Unsupported("strchr in text that is not a literal")
        t = list(lit[cval(simp(r[1])):])
        if 0 in t: t = t[:t.index(0)]
        t.append(0); c = self.wrap(c, ("int", 1, True)); v = 0
        for k in reversed(range(len(t))): v = If(eq(c, t[k] - 256 if t[k] > 127 else t[k]), simp(add(p, k)), v)
        return v

    def b_strcmp(self, n, args):
        p, q = self.a1(args); return self.strcmpv(p, q)
    def v_strcmp(self, vals): return self.strcmpv(*vals)
    def strcmpv(self, p, q):
        ctx = self.ctx
        a, i, n = self.cstr(p, "strcmp"); b, j, m = self.cstr(q, "strcmp")
        return self.cmpres(a, i, n, b, j, m, None)

    def cmpres(self, a, i, n, b, j, m, lim):
        """sign of the comparison of two byte strings of known lengths (unsigned bytes)"""
        ctx = self.ctx
        r = ctx.freshty("cmp", 4, True)
        d = ctx.fresh("diff", 0, 1 << 47)
        ctx.diffs.append(d)
        # r == 0 : equal;  r != 0 : first difference at d
        def u(x): return If(lt(x, 0), add(x, 256), x)
        la, lb = add(n, 1), add(m, 1)
        if lim is not None: la = If(le(la, lim), la, lim); lb = If(le(lb, lim), lb, lim)
        if ctx.branch(eq(r, 0)):
            ctx.assume(eq(la, lb))
            def fa(t): return Implies(And(le(i, t), lt(t, add(i, la))), eq(a.get(ctx, t), b.get(ctx, simp(add(sub(t, i), j)))))
            def fb(t): return Implies(And(le(j, t), lt(t, add(j, lb))), eq(b.get(ctx, t), a.get(ctx, simp(add(sub(t, j), i)))))
            ctx.addfact(ctx.arr_bases(a), self._shiftfact(a, fa)); ctx.addfact(ctx.arr_bases(b), self._shiftfact(b, fb))
        else:
            x, y = a.get(ctx, simp(add(i, d))), b.get(ctx, simp(add(j, d)))
            ctx.assume(And(lt(d, la), lt(d, lb), ne(x, y), Iff(lt(r, 0), lt(u(x), u(y)))))
            def fa(t): return Implies(And(le(i, t), lt(t, add(i, d))), eq(a.get(ctx, t), b.get(ctx, simp(add(sub(t, i), j)))))
            ctx.addfact(ctx.arr_bases(a), self._shiftfact(a, fa))
        return r

    def b_strncmp(self, n, args):
        p, q, k = self.a1(args)
        a, i, l1 = self.strn(p, k, "strncmp"); b, j, l2 = self.strn(q, k, "strncmp")
        return self.cmpres(a, i, l1, b, j, l2, k)

    def strn(self, p, k, what):
        """(array, index, length up to the terminator or k) of a text of which at most k bytes are looked at"""
        ctx = self.ctx
        ch, s, i = self.bytes_at(p, what)
        for w in ch.nuls:
            if ctx.valid(And(le(i, w), lt(w, s.count), eq(s.fields[0][1].get(ctx, w), 0))): return self.cstr(p, what)
        arr = s.fields[0][1]
        ctx.prove(le(add(i, k), s.count), self.lab("%s of text that is not terminated stays inside %s" % (what, ch.name or "its block")), fatal=True, kind="ub")
        n = ctx.fresh("len", 0, 1 << 47)
        ctx.assume(And(le(n, k), Implies(lt(n, k), eq(arr.get(ctx, simp(add(i, n))), 0))))
        def fact(t): return Implies(And(le(i, t), lt(t, add(i, n))), ne(arr.get(ctx, t), 0))
        ctx.addfact(ctx.arr_bases(arr), self._shiftfact(arr, fact))
        return arr, i, n

    def b_memcmp(self, n, args):
        p, q, k = self.a1(args)
        ctx = self.ctx
        k = simp(k)
        if cval(k) == 0: return 0
        if not isc(k) and ctx.branch(eq(k, 0)): return 0
        c1, s1, i = self.bytes_at(p, "memcmp"); c2, s2, j = self.bytes_at(q, "memcmp")
        ctx.prove(And(le(0, i), le(add(i, k), s1.count)), self.lab("memcmp stays inside its first block"), fatal=True, kind="ub")
        ctx.prove(And(le(0, j), le(add(j, k), s2.count)), self.lab("memcmp stays inside its second block"), fatal=True, kind="ub")
        a, b = s1.fields[0][1], s2.fields[0][1]
        return self.cmpres(a, i, k, b, j, k, k)

    def b_isdigit(self, n, args):
        c, = self.a1(args); return self.b2i(And(le(48, c), le(c, 57)))
    def b_isspace(self, n, args):
        c, = self.a1(args); return self.b2i(Or(eq(c, 32), And(le(9, c), le(c, 13))))
    def b_isxdigit(self, n, args):
        c, = self.a1(args)
        return self.b2i(Or(And(le(48, c), le(c, 57)), And(le(65, c), le(c, 70)), And(le(97, c), le(c, 102))))
    def b_sscanf(self, n, args):
        """only "%x" on at most 8 hexadecimal digits"""
        p, fmt, d = self.a1(args)
        ctx = self.ctx; r = ctx.find(simp(fmt)); text = getattr(r[0], "text", None) if r else None
        if text is None or "".join(map(chr, text)) != "%x": raise Unsupported("sscanf with this format")
        ch, s, i = self.bytes_at(p, "sscanf"); arr = s.fields[0][1]; v = 0
        for k in range(9):
            c = arr.get(ctx, simp(add(i, k)))
            if ctx.valid(eq(c, 0)): break
            ctx.prove(lt(add(i, k), s.count), self.lab("sscanf reads inside its text"), fatal=True, kind="ub")
            if not ctx.valid(self.xdigit(c)): raise Unsupported("sscanf on text that may be no number")
            v = add(mul(v, 16), self.xvalue(c))
        else: raise Unsupported("sscanf of a long number")
        if k == 0: raise Unsupported("sscanf of an empty text")
        self.store(d, ("int", 4, False), simp(v))
        return 1
    # decimal conversion: the value of the digit run after an optional '-' at p is the C library's ("decval", one number per address)
    def decval(self, p):
        d = self.ctx.ghosts.setdefault("decval", {}); k = str(simp(p))
        if k not in d:
            v = z3.Int(self.ctx.freshname("decimal")); self.ctx.keep.append(v); self.ctx.assume(v >= 0); d[k] = v
        return d[k]
    def realval(self, p):
        d = self.ctx.ghosts.setdefault("realval", {}); k = str(simp(p))
        if k not in d: d[k] = self.ctx.fresh("real")
        return d[k]
    def _number(self, p, endp):
        """at p: '-'? digit …; stores a later end; returns whether it is negative"""
        ctx = self.ctx; arr, i, n = self.cstr(p, "number")
        neg = ctx.branch(eq(arr.get(ctx, i), 45))
        j = 1 if neg else 0
        d = arr.get(ctx, simp(add(i, j)))
        if not ctx.valid(And(le(48, d), le(d, 57))): raise Unsupported("conversion of a text that may be no number")
        e = ctx.fresh("numlen", 1, 1 << 31); ctx.assume(le(e, n))
        if cval(simp(endp)) != 0: self.store(endp, ("ptr", ("int", 1, True)), simp(add(p, e)))
        return neg
    def _conv(self, args, lo, hi):
        p, endp, base = self.a1(args); ctx = self.ctx
        if cval(simp(base)) != 10: raise Unsupported("conversion in another base")
        neg = self._number(p, endp)
        if neg and lo == 0: raise Unsupported("unsigned conversion of a negative number")
        v = self.decval(p); v = -v if neg else v
        if ctx.branch(And(le(lo, v), le(v, hi))): return v
        self.store(self.b___errno_location(None, []), ("int", 4, True), 34)
        return lo if neg else hi
    def b_strtoll(self, n, args): return self._conv(args, -(1 << 63), (1 << 63) - 1)
    def b_strtoull(self, n, args): return self._conv(args, 0, (1 << 64) - 1)
    def b_strtod(self, n, args):
        p, endp = self.a1(args); self._number(p, endp)
        return self.realval(p)
    @staticmethod
    def xdigit(c): return Or(And(le(48, c), le(c, 57)), And(le(65, c), le(c, 70)), And(le(97, c), le(c, 102)))
    @staticmethod
    def xvalue(c): return If(le(c, 57), sub(c, 48), If(le(c, 70), sub(c, 55), sub(c, 87)))
    def b___builtin_unreachable(self, n, args): raise TrapEx()
    def b_abort(self, n, args): raise TrapEx()
    def b_fprintf(self, n, args):
        for a in args[1:]:
            self.ev(a)
        return 0
    def e_fprintf(self, n): return 0
    def b___errno_location(self, n, args):
        if not hasattr(self, "_errno"):
            b = self.ctx.newbase("&errno"); ch = Chunk(b, 4, "static", False, "errno", init=True); self.ctx.addchunk(ch); self._errno = b
        return self._errno
    def b_strerror(self, n, args):
        self.ev(args[0])
        b = self.ctx.newbase("strerror"); ch = Chunk(b, 64, "static", False, "strerror", init=True); ch.ro = True; self.ctx.addchunk(ch)
        return b

    # varargs ----------------------------------------------------------
    def b___builtin_va_start(self, n, args):
        v = self.valist(args[0]); v.pack = self.fr.pack; v.pos = 0; v.state = "ready"
    def b___builtin_va_end(self, n, args):
        v = self.valist(args[0]); v.state = "ended"
    def b___builtin_va_copy(self, n, args):
        d, s = self.valist(args[0]), self.valist(args[1])
        if s.state != "ready": self.ctx.fail(self.lab("va_copy of a va_list that is %s" % s.state), kind="ub")
        d.pack, d.pos, d.state = s.pack, s.pos, "ready"
    def e_VaEnd(self, n): pass

    def fmttext(self, fmt, v):
        """(array, length) of the text vsnprintf produces for this format and these arguments"""
        ctx = self.ctx
        key = (str(simp(fmt)), id(v.pack), str(v.pos))
        tab = ctx.__dict__.setdefault("_fmt", {})
        if key not in tab:
            ctx.keep.append(v.pack)
            r = self.spec.format(self, fmt, v) or self.litfmt(fmt, v)
            if r is None:
                L = ctx.fresh("fmtlen", 0, (1 << 31) - 2)
                arr = Base(ctx, "fmt", 1, True)
                ctx.addfact([arr], lambda t: Implies(And(le(0, t), lt(t, L)), ne(arr.get(ctx, t), 0)))
                r = (arr, L)
            tab[key] = r
        return tab[key]

    def litfmt(self, fmt, v):
        """the text of a literal format whose directives are understood; None otherwise"""
        import re
        ctx = self.ctx
        r = ctx.find(simp(fmt))
        if r is None: return None
        text = getattr(r[0], "text", None)
        if text is None or cval(simp(r[1])) != 0 or v.pack.args is None: return None
        s = "".join(chr(c & 255) for c in text)
        parts = re.findall(r"%(?:%|s|\.\*s|c|0\d+x|-?\d*l*[dux]|lf|g|f|\.\d+g)|[^%]+|%", s)
        pieces = []; pos = v.pos
        def arg():
            nonlocal pos
            if not isc(pos) or pos >= len(v.pack.args): self.ctx.fail(self.lab("the format asks for more arguments than given"), kind="ub")
            x = v.pack.args[pos]; pos += 1
            return x
        for d in parts:
            if d == "%": return None
            if d == "%%": pieces.append((Lit([37]), 1))
            elif d[0] != "%": pieces.append((Lit([ord(c) - 256 if ord(c) > 127 else ord(c) for c in d]), len(d)))
            elif d == "%s":
                arr, i, n = self.cstr(arg(), "formatted text")
                pieces.append((arr if cval(i) == 0 else self.shifted(arr, i), n))
            elif d == "%.*s":
                k = arg(); p = arg()
                if not ctx.valid(ge(k, 0)): return None
                arr, i, n = self.strn(p, k, "formatted text")
                n = If(le(n, k), n, k)
                pieces.append((arr if cval(i) == 0 else self.shifted(arr, i), n))
            elif d == "%c":
                pieces.append((Const(self.wrap(arg(), ("int", 1, True)), 1, True), 1))
            elif d[1] == "0" and d[-1] == "x":
                w = int(d[2:-1]); x = arg()
                if not ctx.valid(And(ge(x, 0), lt(x, 16 ** w))): return None
                def hexd(q): return If(lt(q, 10), add(48, q), add(87, q))
                a = Const(0, 1, True)
                for k in range(w):
                    q = x if w - 1 - k == 0 else (x >> (4 * (w - 1 - k)) if isc(x) else T(x) / (16 ** (w - 1 - k)))
                    q = q % 16
                    a = a.store(k, simp(hexd(q)))
                pieces.append((a, w))
            else:
                x = arg()
                f = FnBase(ctx, "text" + d, x)
                n = f.length(ctx, 1, 11 if d in ("%d", "%u") else 400)
                ctx.addfact([f], lambda t, f=f, n=n: Implies(And(le(0, t), lt(t, n)), ne(f.get(ctx, t), 0)))
                pieces.append((f, n))
        if not pieces: return (Lit([]), 0)
        arr, n = pieces[0]
        for b, m in pieces[1:]: arr = arr.copyin(n, b, 0, m); n = simp(add(n, m))
        return arr, n

    def shifted(self, arr, i):
        ctx = self.ctx
        r = Fun(lambda k: arr.get(ctx, simp(add(i, k))), 1, True); r.under = arr
        return r

    def b_vsnprintf(self, n, args):
        p = self.ev(args[0]); size = self.ev(args[1]); fmt = self.ev(args[2]); v = self.valist(args[3])
        if v.state != "ready": self.ctx.fail(self.lab("vsnprintf on a va_list that is %s" % v.state), kind="ub")
        arr, L = self.fmttext(fmt, v)
        v.state = "indeterminate after use"
        self.putfmt(p, size, arr, L)
        return L

    def b_snprintf(self, n, args):
        p = self.ev(args[0]); size = self.ev(args[1]); fmt = self.ev(args[2]); rest = [self.ev(a) for a in args[3:]]
        v = VaList(); v.pack = Pack(rest); v.state = "ready"
        arr, L = self.fmttext(fmt, v)
        self.putfmt(p, size, arr, L)
        return L

    def putfmt(self, p, size, arr, L):
        ctx = self.ctx
        size = simp(size)
        if cval(size) == 0 or (not isc(size) and ctx.branch(eq(size, 0))): return
        w = simp(If(lt(L, size), L, sub(size, 1)))
        if not isc(w):
            w = L if ctx.branch(lt(L, size)) else simp(sub(size, 1))
        ch, s, i = self.bytes_at(p, "formatted output")
        if ch.ro: ctx.fail(self.lab("formatted output outside the frame"), kind="frame")
        ctx.prove(And(le(0, i), le(add(add(i, w), 1), s.count)), self.lab("formatted output stays inside %s" % (ch.name or "block")), fatal=True, kind="ub")
        a = s.fields[0][1]
        e = simp(add(i, w))
        s.fields[0] = (1, a.copyin(i, arr, 0, w).store(e, 0))
        ch.nuls = [e] + ch.nuls

