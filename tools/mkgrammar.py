"""Appends to lemmas/grammar.v the reference table of specs/parser.py, row by row: the recogniser proved there takes the same steps."""
import os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from specs.parser import step, SCALARS, OBJ, ARR
TOK = {"[": "LB", "]": "RB", "{": "LC", "}": "RC", ",": "COMMA", ":": "COLON", "str": "(TStr 7)", "err": "OTHER", "eof": "OTHER"}
for s in SCALARS: TOK.setdefault(s, "(TSc 7)")
TOP = dict(root=None, key="FO [] None", colon="FO [] (Some 3)", value="FO [] (Some 3)", more="FO [] None", elem="FA []", next="FA []")
BELOW = {0: "", OBJ: "FO [] (Some 2)", ARR: "FA []"}
cap = lambda p: "Err" if p == "error" else p.capitalize()
rows = []
for p, top in TOP.items():
    for b in ((0,) if p == "root" else (0, OBJ, ARR)):
        for t, c in TOK.items():
            st = "; ".join(x for x in (top, BELOW[b]) if x)
            rows.append("  ph (step (C %s [%s] None) %s) = %s" % (cap(p), st, c, cap(step(p, t, b)[0])))
rows = list(dict.fromkeys(rows))
f = H + "/lemmas/grammar.v"; s = open(f).read(); m = "(* the table of specs/parser.py (tools/mkgrammar.py) *)\n"
s = s.split(m)[0].rstrip("\n") + "\n\n" + m + "Lemma table :\n" + " /\\\n".join(rows) + ".\nProof. repeat split. Qed.\n"
open(f, "w").write(s); print(len(rows), "rows")
