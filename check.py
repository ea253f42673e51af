#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [quick|thorough]: decides one property on /repo's working tree.

1. The functions the property depends on are extracted from /repo (clang AST of the sources and of the
   committed single-file release) and every obligation of their contracts is discharged (cvf/, specs/).
2. A failed obligation is looked at again with the loops unrolled instead of cut by their invariants, to tell
   a property that is broken from an annotation that no longer fits rewritten code.
3. The native harness (native/<property>.c, the real code under ASAN/UBSAN against an oracle) searches a
   concrete failing input; it always runs, longer when an obligation failed.
"""
import sys, os, json, time, subprocess, tempfile, shutil, importlib, multiprocessing, re, signal, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
os.environ.setdefault("VERIF_SEED", "1")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
VARIANTS = ("source", "release")
T0 = time.time()

MODULES = ["common", "list", "simple", "state", "str", "strview", "utf8", "tokenizer", "hash", "dict", "avl", "tree", "map", "set", "json", "jobj", "merge", "select", "parser", "printer", "snprint", "sqlite", "sqlrows", "files", "musl"]

_TU = {}; _SPECS = []

def load_specs():
    from cvf import dsl
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, "specs", m + ".py")): importlib.import_module("specs." + m)
    return dsl.SPECS

def task(t):
    variant, i, bounded, qt, budget = t[:5]
    from cvf import dsl
    dsl.OPEN = set(t[5]) if len(t) > 5 else set()
    s = _SPECS[i]
    sys.setrecursionlimit(12000)
    def onalarm(*_): raise TimeoutError()
    signal.signal(signal.SIGALRM, onalarm); signal.alarm(int(budget) + 60)
    try:
        r = dsl.verify(_TU[variant], s, qtimeout=qt, budget=budget, bounded=bounded)
    except TimeoutError:
        r = dict(spec=s.name, fn=s.fn, status="failed", failed=[dict(label="time limit", kind="budget", detail="")], proved=0, solver_s=budget, paths=0, used=[], inlined=[], obligations=[], wall_s=budget, labels=0)
    except MemoryError:
        r = dict(spec=s.name, fn=s.fn, status="failed", failed=[dict(label="memory limit", kind="budget", detail="")], proved=0, solver_s=budget, paths=0, used=[], inlined=[], obligations=[], wall_s=budget, labels=0)
    except BaseException as e:
        r = dict(spec=s.name, fn=s.fn, status="failed" if "memory" in repr(e) else "internal", error=repr(e)[:400], failed=[], proved=0, solver_s=0, paths=0, used=[], inlined=[], obligations=[], wall_s=0, labels=0)
    finally: signal.alarm(0)
    r["variant"] = variant; r["idx"] = i
    return r

def child(t, conn):
    import resource
    gb = 6 << 30
    try: resource.setrlimit(resource.RLIMIT_AS, (gb, gb))
    except (ValueError, OSError): pass
    try: r = task(t)
    except BaseException as e: r = None
    try: conn.send(r)
    except BaseException: pass
    conn.close(); os._exit(0)

def pmap(tasks, deadline, n=8):
    """run every task in a process of its own; a task that dies, runs out of memory or out of time counts as not settled"""
    from multiprocessing.connection import wait
    ctx = multiprocessing.get_context("fork")
    todo = list(tasks); run = {}
    def lost(t, why):
        s = _SPECS[t[1]]
        return dict(spec=s.name, fn=s.fn, status="failed", failed=[dict(label=why, kind="budget", detail="")], proved=0, solver_s=0, paths=0, used=[], inlined=[], obligations=[], wall_s=0, labels=0, variant=t[0], idx=t[1], lost=True)
    while todo or run:
        while todo and len(run) < n:
            t = todo.pop(0)
            if time.time() > deadline: yield lost(t, "time limit of the check"); continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(t, b), daemon=True); p.start(); b.close()
            run[a] = (p, t, min(deadline + 20, time.time() + t[4] + 90))
        if not run: continue
        for a in wait(list(run), timeout=1.0):
            p, t, end = run.pop(a)
            try: r = a.recv()
            except (EOFError, OSError): r = None
            a.close(); p.join(5)
            if p.is_alive(): p.kill(); p.join()
            yield r if r is not None else lost(t, "the prover process died (memory)")
        now = time.time()
        for a in [a for a in run if run[a][2] < now]:
            p, t, end = run.pop(a); p.kill(); p.join(); a.close()
            yield lost(t, "time limit")

def reach_hash(tu, fn, cache={}):
    """hash of everything the verdict on fn can depend on in the code"""
    key = id(tu)
    if key not in cache:
        calls = {}; taken = set()
        h = {}
        for n, f in tu.funcs.items():
            h[n] = tu.fhash(n)
            s = set()
            def go(x, callee=False):
                rd = x.get("referencedDecl")
                if rd and rd.get("kind") == "FunctionDecl":
                    s.add(rd.get("name"))
                    if not callee: taken.add(rd.get("name"))
                k = x.get("kind")
                for j, y in enumerate(x.get("inner", [])): go(y, (k == "CallExpr" and j == 0) or (callee and k in ("ImplicitCastExpr", "ParenExpr")))
            go(f); calls[n] = s
        recs = hashlib.sha256(repr(sorted((r.name or "", r.size, len(r.fields), tuple((f[0], f[1]) for f in r.fields)) for r in tu.recs.values() if r.name)).encode()).hexdigest()
        enums = hashlib.sha256(repr(sorted(tu.enumn.items())).encode()).hexdigest()
        cache[key] = (h, calls, recs + enums, taken)
    h, calls, types, taken = cache[key]
    if fn is None: return calls, taken
    seen, todo = set(), [fn]
    while todo:
        n = todo.pop()
        if n in seen or n not in h: continue
        seen.add(n); todo += calls[n]
    return hashlib.sha256((types + "".join(h[n] for n in sorted(seen))).encode()).hexdigest()

def reopen(prop, real, limit, qt, budget):
    """The contract of an internal (static) helper is a device of the proof, not a property: when the helper no longer
    meets it, everything that relied on it is proved again with the helper's body in place of its contract.
    Returns {(variant, fn): specs proved again} for the helpers that are settled this way."""
    done = {}
    for v in sorted(set(r["variant"] for r, _, _ in real)):
        tu = _TU[v]
        rs = [r for r, _, _ in real if r["variant"] == v]
        calls, taken = reach_hash(tu, None)
        static = lambda f: f in tu.funcs and tu.funcs[f].get("storageClass") == "static" and f not in taken
        if not all(static(r["fn"]) for r in rs): continue
        open_ = set(r["fn"] for r in rs); ok = False; last = []
        for rnd in range(4):
            # everything that reaches an opened helper without another contract in between
            idx = set(); seen = set(open_); todo = list(open_); blind = False
            for s in _SPECS:
                if any(f in s.views for f in open_) and s.fn in calls and calls[s.fn] & open_: blind = True
            while todo:
                h = todo.pop()
                for f, cs in calls.items():
                    if h not in cs or f in seen: continue
                    seen.add(f)
                    sp = [i for i, s in enumerate(_SPECS) if s.fn == f and not s.trusted]
                    idx.update(sp)
                    if not sp or f in open_:
                        if not static(f): blind = True
                        todo.append(f)
            idx = sorted(i for i in idx if _SPECS[i].fn not in open_)
            if blind or not idx or len(idx) > 60: break
            last = list(pmap([(v, i, None, qt, max(budget, getattr(_SPECS[i], "budget", budget)), tuple(sorted(open_))) for i in idx], limit))
            bad = [r for r in last if r["status"] != "proved"]
            if not bad: ok = True; break
            if not all(static(r["fn"]) for r in bad): break
            open_ |= set(r["fn"] for r in bad)
        if ok:
            for r in rs: done[(v, r["fn"])] = [r2["fn"] for r2 in last]
    return done

# ------------------------------------------------------------------------------------------------ native
def native_build(prop, variant, wd):
    src = os.path.join(HERE, "native", prop + ".c")
    if not os.path.exists(src): return None
    from cvf.frontend import tu_text
    text, inc = tu_text(REPO, variant)
    tu = os.path.join(wd, "ntu_%s_%s.h" % (prop, variant)); open(tu, "w").write(text)
    out = os.path.join(wd, "n_%s_%s" % (prop, variant))
    cmd = ["bash", os.path.join(HERE, "native", "build.sh"), prop, tu, out] + ["-I" + i for i in inc]
    p = subprocess.run(cmd, capture_output=True, timeout=240)
    if p.returncode: return ("builderror", p.stderr.decode("utf8", "replace")[-3000:])
    return out

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:detect_odr_violation=0:allow_user_segv_handler=1:handle_segv=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:handle_sigbus=0", UBSAN_OPTIONS="print_stacktrace=0:exitcode=99", LC_ALL="C")

def native_start(exe, wd, tag, secs, seed, jobs):
    ps = []
    for j in range(jobs):
        d = os.path.join(wd, "run_%s_%d" % (tag, j)); os.makedirs(d, exist_ok=True)
        log = open(os.path.join(d, "log"), "wb")
        p = subprocess.Popen([exe, str(seed * 1000 + j), str(secs)], cwd=d, stdout=log, stderr=subprocess.STDOUT, env=ENV, stdin=subprocess.DEVNULL, start_new_session=True)
        ps.append((p, os.path.join(d, "log"), [os.path.basename(exe).rsplit("_", 1)[1], str(seed * 1000 + j), str(secs)]))
    return ps

def native_wait(ps, secs):
    out = []
    end = time.time() + secs + 60
    for p, log, cmd in ps:
        try: rc = p.wait(timeout=max(1, end - time.time())); hung = False
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait(); rc = -9; hung = True
        txt = open(log, "rb").read().decode("utf8", "replace")
        ok = rc == 0 and "FAIL" not in txt
        m = re.search(r"^CASES (\d+) (\d+)", txt, re.M)
        out.append(dict(ok=ok, rc=rc, hung=hung, text=txt[-6000:], cmd=cmd, cases=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0, done=bool(m)))
    return out

# ------------------------------------------------------------------------------------------------ known findings
def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out.append(m.group(2))
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if len(sys.argv) > 2: tier = sys.argv[2]
    if tier not in ("quick", "thorough"): tier = "quick"
    wd = tempfile.mkdtemp(prefix="vcheck_%s_" % prop)
    try: rc = run(prop, tier, wd)
    finally: shutil.rmtree(wd, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

def lemmas_start(names, wd):
    """the mathematical facts the contracts use, proved in Coq (lemmas/*.v): rechecked on every run"""
    out = []
    for n in names:
        d = os.path.join(wd, "lemma_" + n); os.makedirs(d); shutil.copy(os.path.join(HERE, "lemmas", n + ".v"), d)
        try: p = subprocess.Popen(["timeout", "200", "coqc", "-q", n + ".v"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        except OSError: p = None
        out.append((n, p))
    return out
def lemmas_end(started):
    out = []
    for n, p in started:
        t = p.communicate()[0] if p else ""; src = open(os.path.join(HERE, "lemmas", n + ".v")).read()
        out.append(dict(file="lemmas/%s.v" % n, theorems=re.findall(r"^Theorem (\w+)", src, re.M), backend="Coq 8.16 (coqc)",
                        checked=bool(p) and p.returncode == 0 and "Axioms:" not in t and "Closed under the global context" in t))
    return out

def run(prop, tier, wd):
    global _SPECS
    thorough = tier == "thorough"
    from cvf.frontend import TU, FrontendError
    from cvf import props as P
    info = P.PROPS[prop]
    variants = info.get("variants", VARIANTS)
    nsecs = info.get("native_s", 8) * (6 if thorough else 1)
    lem = lemmas_start(info.get("lemmas", ()), wd)
    # -- native harness, in the background
    nat = []; nb = {}
    from concurrent.futures import ThreadPoolExecutor
    pool = ThreadPoolExecutor(2)
    futs = {v: pool.submit(native_build, prop, v, wd) for v in variants}
    notes = []; front_err = None
    for v in variants:
        try: _TU[v] = TU(REPO, v, wd)
        except FrontendError as e: front_err = str(e); notes.append("%s variant: %s" % (v, e))
    _SPECS = load_specs()
    for v, f in futs.items():
        try: nb[v] = f.result()
        except Exception as e: nb[v] = ("builderror", repr(e))
    for v in variants:
        if isinstance(nb[v], str): nat += native_start(nb[v], wd, v, nsecs, SEED, 4 if thorough else 1)
        elif nb[v]: notes.append("native harness (%s) does not build: %s" % (v, nb[v][1][-600:]))
    # -- obligations
    qt, budget = (20000, 420) if thorough else (8000, 150)
    tasks = []; same = []
    mine = [i for i, s in enumerate(_SPECS) if prop in s.props and not s.trusted]
    for i in mine:
        s = _SPECS[i]
        hs = {}
        for v in variants:
            if v not in _TU: continue
            h = reach_hash(_TU[v], s.fn) if s.fn in _TU[v].funcs else None
            if h is None and any(s.fn in t.funcs for t in _TU.values()): continue      # not part of this variant
            if h is not None and h in hs: same.append((s.name, v)); continue
            hs[h] = v; tasks.append((v, i, None, qt, max(budget, getattr(s, "budget", budget))))
    tasks.sort(key=lambda t: -getattr(_SPECS[t[1]], "cost", 1))
    res = []
    br = {}
    if tasks:
        limit = T0 + (3000 if thorough else 560)
        for r in pmap(tasks, limit): res.append(r)
        # -- a query the solver did not settle in time is asked again with more time
        unk = lambda f: f.get("kind") == "budget" or "answered unknown" in (f.get("detail") or "")
        again = [(r["variant"], r["idx"], None, qt * 4, min(2 * max(budget, getattr(_SPECS[r["idx"]], "budget", budget)), 300)) for r in res if r["status"] == "failed" and r.get("failed") and all(unk(f) for f in r["failed"]) and "memory" not in r["failed"][0]["label"]]
        for r in pmap(again, limit):
            if r["status"] == "proved": res = [x for x in res if (x["variant"], x["idx"]) != (r["variant"], r["idx"])] + [r]
        bad = [r for r in res if r["status"] != "proved"]
        # -- annotation or property?
        bt = []
        for r in bad:
            s = _SPECS[r["idx"]]
            if r["status"] in ("failed", "annot") and getattr(s, "boundable", True):
                for b in ((2, 3) if not thorough else (2, 4)): bt.append((r["variant"], r["idx"], b, 4000, 60))
        for r in pmap(bt, limit + 120): br.setdefault((r["variant"], r["idx"]), []).append(r)
    nres = native_wait(nat, nsecs)
    bad = [r for r in res if r["status"] != "proved"]
    nfail = [n for n in nres if not n["ok"]]
    if bad and not nfail and nb:
        # an obligation failed: search longer for a concrete failing input
        nat = []
        for v in variants:
            if isinstance(nb.get(v), str): nat += native_start(nb[v], wd, v + "x", max(20, nsecs * 3), SEED + 17, 4)
        more = native_wait(nat, max(20, nsecs * 3)); nres += more
        nfail = [n for n in nres if not n["ok"]]
    lines = []; standins = []
    rp = os.path.join(HERE, "replays"); os.makedirs(rp, exist_ok=True)
    replay = os.path.join(rp, "%s.txt" % prop)
    # -- verdict
    viol = None
    real = []
    for r in bad:
        s = _SPECS[r["idx"]]
        hard = [f for f in r.get("failed") or [] if f.get("kind") not in ("budget", "own", "frame") and "answered unknown" not in (f.get("detail") or "")]
        bs = br.get((r["variant"], r["idx"]), [])
        bhard = [f for b in bs for f in (b.get("failed") or []) if f.get("kind") not in ("budget", "own", "frame") and "answered unknown" not in (f.get("detail") or "")]
        loopy = bool(s.loops)
        if r["status"] == "failed" and hard and not loopy: real.append((r, hard, "obligation refuted"))
        elif bhard: real.append((r, bhard, "obligation refuted with loops unrolled"))
        else:
            standins.append(dict(function=r["fn"], variant=r["variant"], reason=(r.get("error") or "; ".join(f["label"] for f in (r.get("failed") or [])[:3]))[:300],
                                 standin=("loops unrolled up to 3 times, no obligation refuted; " if bs and all(b["status"] == "proved" for b in bs) else "") + "bounded native testing only"))
    reproved = {}
    if real and not nfail:
        reproved = reopen(prop, real, time.time() + (900 if thorough else 200), qt, budget)
        for r, fs, w in real:
            k = (r["variant"], r["fn"])
            if k in reproved: notes.append("internal helper %s (%s) no longer meets its contract (%s); proved again with its body in place: %s" % (r["fn"], r["variant"], fs[0]["label"][:100], ", ".join(sorted(set(reproved[k])))))
        real = [x for x in real if (x[0]["variant"], x[0]["fn"]) not in reproved]
    if nfail:
        n = nfail[0]
        viol = True
        open(replay, "w").write("property %s: failing input on the real code\nharness: native/%s.c\nre-run: native/replay.sh %s %s   (add the case seed below as a last argument to run that case alone)\nexit %s%s\n\n%s\n%s" % (
            prop, prop, prop, " ".join(n["cmd"]), n["rc"], " (did not finish)" if n["hung"] else "", n["text"],
            "\n".join("failed obligation: %s (%s): %s" % (f["label"], r["variant"], (f.get("detail") or "")[:800]) for r, fs, w in real for f in fs[:5])))
        line = "VIOLATION property=%s replay=%s" % (prop, replay)
    elif real:
        viol = True
        with open(replay, "w") as o:
            o.write("property %s: obligations refuted by the verifier; no concrete failing input found by the native search\n\n" % prop)
            for r, fs, w in real:
                o.write("function %s (%s, contract %s): %s\n" % (r["fn"], r["variant"], r["spec"], w))
                for f in fs[:8]: o.write("  obligation: %s\n    %s\n    %s\n" % (f["label"], (f.get("detail") or "")[:1500], (f.get("cond") or "")[:800]))
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
    if front_err and not viol and not any(isinstance(x, str) for x in nb.values()) and not _TU:
        print("the code under test does not compile: %s" % front_err[:300]); return 0
    # -- evidence
    lem = lemmas_end(lem)
    notes += ["lemma %s was not checked on this run: it is an assumption" % l["file"] for l in lem if not l["checked"]]
    obl = sum(r.get("labels", 0) or 0 for r in res) + sum(len(r.get("failed") or []) for r in res)
    tot = sum((r.get("proved") or 0) + len(r.get("failed") or []) for r in res)
    dis = sum(r.get("proved") or 0 for r in res)
    funcs = sorted(set(r["fn"] for r in res if r["status"] == "proved"))
    inl = sorted(set(x for r in res for x in r.get("inlined") or []))
    used = set(x for r in res for x in r.get("used") or [])
    trusted = sorted(s.name for s in _SPECS if s.name in used and s.trusted)
    ev = dict(property=prop, tier=tier, seed=SEED, level=info["level"], wall_s=round(time.time() - T0, 2),
              violations=1 if viol else 0,
              coverage=dict(obligations=tot, discharged=dis, checker_cmd="check.py %s %s" % (prop, tier),
                            trusted_base=["cvf (symbolic executor and contract language in /verif/cvf)", "z3 (python API)", "clang 18 AST"] + ["abstraction contract " + t + next((" (view of what is proved in %s)" % s.by for s in _SPECS if s.name == t and getattr(s, "by", None)), "") for t in trusted],
                            functions_under_contract=funcs, executed_in_place=inl,
                            not_proved=[dict(function=r["fn"], variant=r["variant"], status=r["status"]) for r in bad],
                            bounded_standins=standins, paths=sum(r.get("paths") or 0 for r in res),
                            backend="z3 (all obligations)", solver_s=round(sum(r.get("solver_s") or 0 for r in res), 2),
                            identical_in_both_variants=len(same), lemmas=lem,
                            native=dict(runs=len(nres), cases=sum(n["cases"] for n in nres), distinct=sum(n["distinct"] for n in nres), failing=len(nfail),
                                        role="search for failing inputs on the real code (ASAN/UBSAN); bounded, never counted as proved"),
                            evaluations=sum(n["cases"] for n in nres), distinct_nontrivial=sum(n["distinct"] for n in nres),
                            rule=info.get("rule", "random operation histories from VERIF_SEED checked against a reference model; a case counts as non-trivial when its operation digest is new"),
                            samples=[r["spec"] + ": " + "; ".join((r.get("obligations") or [])[:3]) for r in res[:4]],
                            notes=notes),
              assumptions=info.get("assumptions", []) + P.COMMON)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for r in sorted(res, key=lambda r: (r["fn"], r["variant"])):
        if r["status"] != "proved" or os.environ.get("VERBOSE"):
            print("  %-11s %-34s %-8s %s" % (r["status"], r["fn"], r["variant"], (r.get("error") or "; ".join(f["label"] for f in (r.get("failed") or [])[:2]))[:160]))
    for x in standins: print("  bounded stand-in for %s (%s): %s" % (x["function"], x["variant"], x["standin"]))
    for x in notes: print("  note: " + x[:300])
    print("%s: %d functions, %d/%d obligations, native %d cases, %.1fs" % (prop, len(funcs), dis, tot, sum(n["cases"] for n in nres), time.time() - T0))
    for k in known(prop): print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if viol:
        print(line); return 1
    return 0

if __name__ == "__main__": main()
