"""The properties of the scripts: scenarios, stubs of the programs they run, and judges."""
import os, re, json, random, ast
from collections import Counter
from machine import World, Proc, MS, SEC

ROOT = "/r/amzn-smt-prediction"
CWD = ROOT + "/scripts"

class Invalid(Exception):
    pass

class Verdict:
    def __init__(self):
        self.violation, self.tags, self.hash, self.log, self.choices = None, [], "", [], []
        self.sim_ns = self.steps = self.switches = self.procs = 0
        self.nontrivial = False
    def fail(self, kind, what):
        if self.violation is None: self.violation = (kind, what[:600])

BENIGN = ("short", "jump")
def benign(cls, act): return cls == "child" or act.startswith(BENIGN)

ACTS = {
    "open": ["EMFILE", "EACCES", "EIO", "ENOSPC", "crash"], "read": ["short", "short", "EIO", "crash"], "write": ["ENOSPC", "EIO", "short", "short", "mid", "mid", "crash"],
    "stdout": ["EPIPE", "EIO", "ENOSPC", "short", "crash"], "close": ["EIO", "crash"], "stat": ["crash"], "mkdir": ["ENOSPC", "EACCES", "crash"],
    "unlink": ["crash"], "rename": ["crash", "EIO"], "readdir": ["crash", "EIO"], "spawn": ["EAGAIN", "ENOMEM", "crash"], "wait": ["crash"],
    "clock": ["jump", "jump", "jump"], "net": ["lost", "lostafter", "crash"], "child": ["kill", "kill", "kill"],
}
def draw_fault(r, counts):
    """One fault at a point some process of the fault-free run passed."""
    p = r.choice(sorted(counts))
    c = [k for k in sorted(counts[p]) if k in ACTS]
    if "spawn" in c: c += ["child"] * 2
    if not c: return None
    cls = r.choice(c)
    n = counts[p].get("spawn" if cls == "child" else cls)
    k = 1 + r.randrange(n)
    if r.random() < 0.2: k = n
    act = r.choice(ACTS[cls])
    if act == "short": act = f"short{r.choice([1, 2, 3, 7, 20, 100])}"
    if act == "mid": act = f"mid{r.choice([0, 1, 2, 5, 10, 30, 100])}"
    if act == "jump": act = f"jump{r.choice([-86400000, -20000, -3000, 1500, 9000, 400000, 31536000000])}"
    if act == "kill": act = str(r.choice([0, 5, 300, 2000, 6000, 20000]))
    return {"p": p, "cls": cls, "n": k, "act": act}

def shrink(sc):
    """Simpler scenarios, larger cuts first."""
    def cuts(v):
        n = len(v)
        k = n
        while k >= 1:
            for i in range(0, n, k):
                yield v[:i] + v[i + k:]
            k //= 2
    for key in ("faults", "schedule", "rows"):
        for c in cuts(sc.get(key) or []):
            yield {**sc, key: c}
    for k in ("disk_left", "prefiles"):
        if sc.get(k) is not None: yield {x: y for x, y in sc.items() if x != k}
    for k in ("crlf", "nonl"):
        if sc.get(k): yield {**sc, k: False}
    steps = sc["steps"]
    if len(steps) > 1:
        for i in range(len(steps) - 1, -1, -1):
            def ren(f): return {**f, "p": f["p"] - (f["p"] > i)}
            yield {**sc, "steps": steps[:i] + steps[i + 1:], "faults": [ren(f) for f in sc.get("faults", []) if f["p"] != i]}
    for k, l in enumerate(sc.get("lists", [])):
        for c in cuts(l): yield {**sc, "lists": sc["lists"][:k] + [c] + sc["lists"][k + 1:]}
    for i, st in enumerate(steps):
        if st.get("delay"): yield {**sc, "steps": steps[:i] + [{**st, "delay": 0}] + steps[i + 1:]}
    for i, b in enumerate(sc.get("benches", [])):
        def put(x): return {**sc, "benches": sc["benches"][:i] + [x] + sc["benches"][i + 1:]}
        for k, y in b.items():
            if isinstance(y, dict) and "chunks" in y:
                for c in cuts(y["chunks"]): yield put({**b, k: {**y, "chunks": c}})
                for j, (t, x) in enumerate(y["chunks"]):
                    if len(x) > 1:
                        for z in (x[:len(x) // 2], x[len(x) // 2:]):
                            yield put({**b, k: {**y, "chunks": y["chunks"][:j] + [[t, z]] + y["chunks"][j + 1:]}})
            elif isinstance(y, list) and k in ("raw", "parts"):
                for c in cuts(y): yield put({**b, k: c})
        simple = f"/x{i}.smt2"
        if b.get("path") not in (None, simple) and "/x" not in b["path"][:2]: yield put({**b, "path": simple})

NAMES = ["a", "b", "test2", "s.t", "QF_SLIA", "mod.smt2", "20-15.slack", "ab_c", "x"]
ODD = ["b c", "x'y", "$HOME", "p(1)", "é", 'q"r', "v;w", "*", "a&b", "~", "#z", "back\\slash", "tab\there", "日本", "-e", "%s", "{0}"]
def bench_path(r, used, ext=".smt2"):
    while True:
        v = [r.choice(ODD) if r.random() < 0.15 else r.choice(NAMES) for _ in range(r.randrange(1, 4))]
        v[-1] += r.choice(["", "", "2", ".smt"]) + str(r.randrange(30))
        p = "/" + "/".join(v) + ext
        f = p[1:].replace("/", "_")
        if f not in used:
            used.add(f)
            return p
def prefix(r):
    return r.choice(["../SMT_Comp_2020", "../SMT_Comp_2020/", "/data", "../b c", "bench/it's", "/d$x/(q)"])

WORDS = ["lemma", "(str.len", "x)", "str.contains", "0", "(not", "=", "conflict", "é", "\"日本\"", "a_b", "::", "\\x41"]
def text_lines(r, n):
    out = []
    for _ in range(n):
        k = r.choice([0, 1, 2, 5, 6, 7, 8, 9, 10, 11, 19, 20, 21, 39, 40, 59, 60, 61, 79, 80, 99, 100, 101, 130, r.randrange(30), r.randrange(130)])
        sep = lambda: r.choice([" ", " ", " ", "  ", "\t"])
        out.append(r.choice(["", "", " "]) + "".join(r.choice(WORDS) + sep() for _ in range(k)).rstrip())
    return out
def l1(t): return t.encode().decode("latin-1")
def behaviour(r, lines, limit, hang=None, garbage=False):
    """A solver's timeline: chunks of its output, split anywhere, none within half a second of the limit."""
    b = "\n".join(lines).encode()
    if lines and r.random() < 0.8: b += b"\n"
    if garbage and r.random() < 0.15:
        k = r.randrange(len(b) + 1)
        b = b[:k] + r.choice([b"\xff", b"\xe6\x97", b"caf\xe9 "]) + b[k:]
    s = b.decode("latin-1")
    n = r.randrange(1, 5)
    at = sorted(r.randrange(len(s) + 1) for _ in range(n - 1))
    parts = [s[i:j] for i, j in zip([0] + at, at + [len(s)])]
    slow = r.random() < 0.45 if hang is None else hang
    top = limit * 1.6 if slow else limit * 0.9
    ts = sorted(r.uniform(5, top) for _ in parts)
    ts = [t if abs(t - limit) > 600 else limit - 700 for t in ts]
    end = None if slow and r.random() < 0.5 else max(ts[-1] + 1, limit + 700) if slow else ts[-1] + r.uniform(0, limit * 0.04)
    return {"chunks": [[round(t), x] for t, x in zip(ts, parts)], "end": None if end is None else round(end), "code": r.choice([0, 0, 0, 0, 1, 134])}

def timeline(b, err=b""):
    ev = [(t, "out", x.encode("latin-1")) for t, x in b["chunks"]]
    if err: ev.append((1, "err", err))
    if b["end"] is not None: ev.append((max([b["end"]] + [t for t, _ in b["chunks"]]), "exit", b["code"]))
    return ev

def emitted(call, limit):
    """What a child had printed by its end or the limit, and whether it ended by itself by then."""
    c, t0 = call["child"], call["t"]
    top = t0 + limit * MS
    out, end = b"", None
    for t, k, x in c.plan:
        if t > top: break
        if k == "out": out += x
        if k == "exit":
            end = t
            break
    return out, end

def same_text(got, raw, complete):
    """A text is the decoded output up to surrounding white space and the treatment of bytes that are not UTF-8."""
    if got is None: return False
    g = got.decode("utf-8", "replace").strip()
    for how in ("replace", "ignore", "backslashreplace"):
        if g == raw.decode("utf-8", how).replace("\r\n", "\n").replace("\r", "\n").strip(): return True
    return False

# script -> number of arguments it needs, those that name a solver or theory
MISUSE = {"get_solver_output": (3, [0]), "get_word_counts": (2, [0]), "get_word_count_features": (3, [0, 1]), "run_eager_v_lazy": (2, []), "find_faster_fmf": (2, []),
          "generate_predictions": (2, []), "modernize_benchmarks": (2, []), "clean_smt_comp_results": (0, []), "clean_eager_lazy_data": (1, [0])}
NEEDS = {"run_eager_v_lazy": [f"/r/amzn-smt-prediction/solvers/{x}" for x in ("z3", "cvc4", "amzn-smt-eager-arithmetic")],
         "modernize_benchmarks": ["/r/amzn-smt-string-fct-updater/release/amzn-smt-string-fct-updater"]}

class Prop:
    quick_seeds = 2400
    nfaulty = 6
    limit_ops = 60_000
    rule = "distinct event histories in which at least one result of a script was compared with the reference"
    stubbed = ["the solvers and the programs of this repository the scripts call (timelines drawn by the scenario)", "operating system (files, directories, child processes, pipes, clocks, entropy)",
               "numpy's argmax and the SageMaker client (answers drawn by the scenario)"]
    def programs(self, sc): return {}
    def finish(self, sc, r): return sc
    def scenarios(self, r):
        base = self.gen(r)
        base.setdefault("faults", [])
        base.setdefault("rnd", r.randrange(1 << 30))
        base["sched_seed"] = r.randrange(1 << 40)
        counts = {}
        yield base
        counts = self.counts
        last = max(s["phase"] for s in base["steps"])
        counts = {p: c for p, c in counts.items() if base["steps"][p]["phase"] < last or last == 0}
        for k in range(self.nfaulty):
            sc = dict(base)
            sc["sched_seed"] = r.randrange(1 << 40)
            fs = [draw_fault(r, counts) for _ in range(r.choice([1, 1, 2, 3]))] if counts else []
            sc["faults"] = [f for f in fs if f]
            if r.random() < 0.08 and last > 0:
                sc["faults"], sc["disk_left"] = [], r.randrange(0, 2500)
            yield sc
        if r.random() < 0.3:
            k = r.randrange(len(base["steps"]))
            how = r.choice(self.misuses(base, base["steps"][k]))
            yield {**base, "faults": [], "steps": [{**base["steps"][k], "phase": 0, "delay": 0, "q": 0}], "misuse": how}
    def misuses(self, sc, st):
        """Ways to call the script of step st wrongly: [argument vector, files to take away]."""
        need, where = MISUSE[st["script"]]
        v = [[st["args"][:k], []] for k in range(need)]
        for k in where: v.append([st["args"][:k] + ["cvc5"] + st["args"][k + 1:], []])
        for k, a in enumerate(st["args"]):
            if a.endswith(".csv"): v.append([st["args"][:k] + ["no" + a] + st["args"][k + 1:], []])
        for f in NEEDS.get(st["script"], []): v.append([st["args"], [f]])
        return v or [[st["args"], sorted(w for w in self.inputs(sc))[:1]]]
    def inputs(self, sc): return []
    def misused(self, sc, v, trace):
        """A run that cannot work must say so, and run and write nothing."""
        w = World(sc["rnd"], sc.get("sched_seed"), sc.get("schedule"), [], None, self.programs(sc))
        w.limit = self.limit_ops
        if trace: w.log = v.log
        w.mkdirs(CWD)
        st = sc["steps"][0]
        self.setup(w, sc)
        for f in sc["misuse"][1]: w.nodes.pop(f, None)
        before = {k: bytes(n.data) for k, n in w.nodes.items() if n.kind == "f"}
        p = Proc(w, 0, st["script"], [st["script"] + ".py"] + sc["misuse"][0], CWD, 0, 0)
        w.all = [p]
        w.run_phase([p])
        v.hash, v.sim_ns, v.steps, v.procs, v.choices = w.events_h.hexdigest(), w.now, w.nops, 1, w.choices
        v.tags.append("misuse")
        if w.unmodelled or p.err.startswith("Harness"):
            v.tags.append("inconclusive")
            return
        v.nontrivial = True
        what = f"{st['script']} {sc['misuse'][0]} without {sc['misuse'][1]}"
        after = {k: bytes(n.data) for k, n in w.nodes.items() if n.kind == "f"}
        if p.code == 0: v.fail("misuse-unnoticed", f"{what} ends with exit status 0: {bytes(p.out.data)!r:.200}")
        elif w.calls or w.requests: v.fail("misuse-runs", f"{what} runs {[c['prog'] for c in w.calls]}")
        elif any(after.get(k) != x for k, x in before.items()): v.fail("misuse-writes", f"{what} changes {[k for k, x in before.items() if after.get(k) != x]}")
    def exec(self, sc, v, trace):
        if sc.get("misuse"): return self.misused(sc, v, trace)
        w = World(sc["rnd"], sc.get("sched_seed"), sc.get("schedule"), sc.get("faults", []), None, self.programs(sc))
        w.limit = self.limit_ops
        if trace: w.log = v.log
        w.mkdirs(CWD)
        self.setup(w, sc)
        steps = sc["steps"]
        if not steps: raise Invalid
        last = max(s["phase"] for s in steps)
        procs = [Proc(w, i, s["script"], [s["script"] + ".py"] + s["args"], CWD, s["phase"], s.get("delay", 0) * MS) for i, s in enumerate(steps)]
        w.all = procs
        w.phase_calls = []
        for ph in range(last + 1):
            w.disk_left = sc.get("disk_left") if ph < last else None
            mine = [p for p in procs if p.phase == ph]
            if not mine: continue
            w.run_phase(mine)
            self.between(w, sc, ph)
        v.hash, v.sim_ns, v.steps, v.switches, v.procs, v.choices = w.events_h.hexdigest(), w.now, w.nops, w.switches, len(procs) + len(w.children), w.choices
        self.counts = {p.idx: dict(p.n) for p in procs}
        for i, c, a in w.hits: v.tags.append("fault:" + c + ":" + (re.sub(r"-?\d+$", "", a) or "kill"))
        if sc.get("disk_left") is not None: v.tags.append("fault:disk-full")
        if w.unmodelled or any(p.err.startswith("Harness") for p in procs):
            v.tags.append("inconclusive")
            v.log.append(str(w.unmodelled) + " " + " ".join(p.err for p in procs))
            return
        runs = []
        for p, s in zip(procs, steps):
            hits = [(c, a) for i, c, a in w.hits if i == p.idx]
            full = sc.get("disk_left") is not None and s["phase"] < last
            r = Run()
            r.hits = hits
            r.p, r.st, r.idx, r.code, r.err = p, s, p.idx, p.code, p.err
            r.disturbed = full or any(not benign(c, a) for c, a in hits)
            r.errors = full or any(not benign(c, a) and a != "crash" and not a.startswith("mid") for c, a in hits)
            r.calls = [c for c in w.calls if c["p"] == p.idx]
            r.out = bytes(p.out.data).decode("utf-8", "replace")
            runs.append(r)
            v.tags.append(("disturbed: " if r.disturbed else "undisturbed: ") + ("killed" if p.code is None else f"exit {p.code}"))
            if w.log is not None and p.err: w.log.append(f"   proc {p.idx}: {p.err}")
        if w.endless:
            if any(r.disturbed for r in runs): v.tags.append("inconclusive")
            else: v.fail("does-not-terminate", "the scripts do not end")
            return
        try:
            self.judge(v, w, sc, runs)
        except (ValueError, IndexError) as e:
            return v.fail("malformed-output", f"{type(e).__name__}: {e}")
        for k in runs:
            if not k.disturbed and k.code != 0 and not self.may_fail(w, sc, k): v.fail("fails: " + re.sub(r"\.py:\d+", "", k.err.split(":")[0]), f"exit {k.code}: {k.err} | {k.out[-200:]}")
    def between(self, w, sc, ph): pass
    def may_fail(self, w, sc, run): return False

class Run: pass

def list_text(sc, names):
    e = "\r\n" if sc.get("crlf") else "\n"
    return e.join(names) + ("" if sc.get("nonl") or not names else e)

def common(r, sc):
    sc["crlf"], sc["nonl"] = r.random() < 0.08, r.random() < 0.25
    return sc

def flat(p): return p[1:].replace("/", "_").removesuffix(".smt2")

# ---------------------------------------------------------------------------------------------- Y01
class Y01(Prop):
    id = "Y01"
    real = ["get_solver_output.py"]
    assumptions = ["The benchmarks of the lists differ in the names their files get (the path with '/' replaced by '_').",
                   "A solver that ends in the last half second before its limit, or just after it, is not simulated."]
    def gen(self, r):
        used = set()
        solver = r.choice(["cvc4", "cvc4", "z3"])
        benches = []
        for _ in range(r.randrange(1, 7)):
            benches.append({"path": bench_path(r, used), "b": behaviour(r, text_lines(r, r.choice([0, 1, 3, 10])), 10_000, garbage=True), "err": r.random() < 0.3})
        m = r.choice([1, 1, 2, 3])
        lists = [[] for _ in range(m)]
        for i in range(len(benches)): lists[r.randrange(m)].append(i)
        pre = prefix(r)
        nofmf = [r.random() < 0.4 for _ in range(m)]
        steps = []
        for ph in (0, 1):
            for k in range(m):
                steps.append({"script": "get_solver_output", "args": [solver, f"list{k}.csv", pre] + (["--no-strings-fmf"] if nofmf[k] else []), "q": k, "phase": ph, "delay": r.choice([0, 0, 1, 50, 3000]) if ph == 0 else 0})
        old = [i for i in range(len(benches)) if r.random() < 0.15]
        return common(r, {"solver": solver, "benches": benches, "lists": lists, "prefix": pre, "steps": steps, "prefiles": old, "dir": r.random() < 0.4})
    def file(self, sc, i): return f"{ROOT}/{sc['solver']}_output/raw/{sc['solver']}_rawout_{flat(sc['benches'][i]['path'])}"
    def setup(self, w, sc):
        for s in ("cvc4", "z3"): w.put(ROOT + "/solvers/" + s, "", True)
        w.at = {}
        for i, b in enumerate(sc["benches"]):
            q = w.norm(sc["prefix"] + "/" + b["path"], CWD)
            w.put(q, "(check-sat)\n")
            w.at[q] = i
        for k, l in enumerate(sc["lists"]): w.put(f"{CWD}/list{k}.csv", list_text(sc, [sc["benches"][i]["path"] for i in l]))
        if sc.get("dir"): w.mkdirs(f"{ROOT}/{sc['solver']}_output/raw")
        for i in sc.get("prefiles") or []: w.put(self.file(sc, i), "left over " * 300)
    def programs(self, sc):
        def solver(w, p, argv, cwd, call, child):
            pos = [a for k, a in enumerate(argv[1:], 1) if not a.startswith("-") and argv[k - 1] != "-t"]
            call["bench"] = w.at.get(w.norm(pos[0], cwd)) if len(pos) == 1 else None
            if call["bench"] is None: return [(5, "err", b"Error: no such file\n"), (6, "exit", 1)]
            b = sc["benches"][call["bench"]]
            return timeline(b["b"], b"warning: \xff\n" if b["err"] else b"")
        return {"cvc4": solver, "z3": solver}
    def options(self, sc, st, argv):
        v, k = [], 0
        while k < len(argv):
            if argv[k] == "-t" and k + 1 < len(argv): v.append(("-t", argv[k + 1])); k += 1
            elif argv[k].startswith("-"): v.append(argv[k])
            k += 1
        want = [] if sc["solver"] == "z3" else ["--strings-exp", "--rewrite-divk", ("-t", "strings-lemma"), ("-t", "strings-conflict")] + ([] if "--no-strings-fmf" in st["args"] else ["--strings-fmf"])
        return Counter(v) == Counter(want)
    def between(self, w, sc, ph):
        w.phase_calls.append([w.text(self.file(sc, i)) for i in range(len(sc["benches"]))])
    def judge(self, v, w, sc, runs):
        for r in runs:
            l = sc["lists"][r.st["q"]]
            texts = w.phase_calls[r.st["phase"]]
            for c in r.calls:
                if c["prog"] != sc["solver"]: return v.fail("wrong-solver", f"ran {c['prog']} for {sc['solver']}")
                if c.get("bench") is None: return v.fail("wrong-argument", f"the solver was given {c['argv']}")
                if not self.options(sc, r.st, c["argv"]): return v.fail("wrong-options", f"{c['argv']} for {r.st['args']}")
                out, end = emitted(c, 10_000)
                stop = getattr(c["child"], "killed_at", None)
                if stop is not None and stop < c["t"] + 9_900 * MS: return v.fail("stopped-early", f"a solver was stopped after {(stop - c['t']) / 1e9:.2f} s")
                if end is None and not (r.disturbed and r.code is None) and (stop is None or stop > c["t"] + 10_400 * MS) and not (r.disturbed and c is r.calls[-1]):
                    return v.fail("not-stopped", "a solver ran past its ten seconds")
            done = [c["bench"] for c in r.calls]
            if r.code == 0 and Counter(done) != Counter(l): return v.fail("not-every-benchmark", f"list {l}, solver runs {done}")
            if not set(done) <= set(l): return v.fail("not-listed", f"list {l}, solver runs {done}")
            for n, c in enumerate(r.calls):
                if r.code == 0 or (n + 1 < len(r.calls) and not r.errors):
                    i = c["bench"]
                    raw, end = emitted(c, 10_000)
                    v.nontrivial = True
                    if not same_text(texts[i], raw, end is not None):
                        return v.fail("wrong-output" if texts[i] is not None else "no-output-file", f"{self.file(sc, i)} holds {texts[i]!r:.200} where the solver printed {raw!r:.200}")

# ---------------------------------------------------------------------------------------------- Y02
DEFAULT = [7, 8, 9, 10, 20, 40, 60, 80, 100]
def labels(b):
    v = [f"less_than_{b[0]}"]
    for x, y in zip(b, b[1:]): v.append(f"equal_{x}" if y == x + 1 else f"between_{x}_{y}")
    return v + [f"over_{b[-1]}"]
def features(counts, b):
    f = [0] * (len(b) + 1)
    for n in counts:
        f[sum(1 for x in b if n >= x)] += 1
    return f
def word_counts(text):
    l = text.replace("\r\n", "\n").replace("\r", "\n").split("\n")
    if l[-1] == "": l.pop()
    return [len(x.split()) for x in l]

class Y02(Prop):
    id = "Y02"
    real = ["get_word_counts.py", "get_word_count_features.py"]
    assumptions = ["The benchmarks of the lists differ in the names their files get (the path with '/' replaced by '_').", "A line of exactly 100 words counts as over_100, as the half-open buckets below it do."]
    def gen(self, r):
        used = set()
        benches = [{"path": bench_path(r, used), "raw": text_lines(r, r.choice([0, 1, 3, 10, 40])), "nl": r.random() < 0.7} for _ in range(r.randrange(1, 6))]
        m = r.choice([1, 1, 2, 3])
        solvers = ["cvc4", "z3"]
        lists, steps = [], []
        for k in range(m):
            lists.append([r.randrange(len(benches)) for _ in range(r.randrange(0, 6))] if m > 1 else [i for i in range(len(benches)) if r.random() < 0.9])
            lists[-1] = list(dict.fromkeys(lists[-1]))
        taken = set()
        for k in range(m):
            lists[k] = [i for i in lists[k] if i not in taken]
            taken |= set(lists[k])
        s = r.choice(solvers)
        both = r.random() < 0.3
        for ph in (0, 2):
            for k in range(m):
                for t in (solvers if both else [s]):
                    steps.append({"script": "get_word_counts", "args": [t, f"list{k}.csv"], "q": k, "solver": t, "phase": ph, "delay": r.choice([0, 0, 1])})
            for t in (solvers if both else [s]):
                steps.append({"script": "get_word_count_features", "args": [t, "qf_slia", "all.csv"], "q": -1, "solver": t, "phase": ph + 1, "delay": r.choice([0, 0, 1])})
        return common(r, {"benches": benches, "lists": lists, "order": r.sample(range(len(taken)), len(taken)), "steps": steps, "solvers": solvers if both else [s], "prefiles": r.random() < 0.2, "dir": r.random() < 0.3})
    def setup(self, w, sc):
        al = [i for l in sc["lists"] for i in l]
        al = [al[k] for k in sc["order"] if k < len(al)]
        w.al = al
        for k, l in enumerate(sc["lists"]): w.put(f"{CWD}/list{k}.csv", list_text(sc, [sc["benches"][i]["path"] for i in l]))
        w.put(f"{CWD}/all.csv", list_text(sc, [sc["benches"][i]["path"] for i in al]))
        w.raw = {}
        for t in sc["solvers"]:
            for i, b in enumerate(sc["benches"]):
                v = b["raw"] if t == "cvc4" else b["raw"][::-1][:2]
                x = "\n".join(v) + ("\n" if b["nl"] and v else "")
                w.put(f"{ROOT}/{t}_output/raw/{t}_rawout_{flat(b['path'])}", x)
                w.raw[t, i] = word_counts(x)
            if sc.get("dir"):
                w.mkdirs(f"{ROOT}/{t}_output/counts")
                w.mkdirs(f"{ROOT}/{t}_output/features")
            if sc.get("prefiles"):
                w.put(f"{ROOT}/{t}_output/features/on_features_qf_slia_{t}.csv", "1,2,3\n" * 900)
                for i in al[:2]: w.put(f"{ROOT}/{t}_output/counts/{t}_count_{flat(sc['benches'][i]['path'])}", "3\n" * 900)
        w.snap = {}
    def counts_of(self, w, sc, t, i): return w.text(f"{ROOT}/{t}_output/counts/{t}_count_{flat(sc['benches'][i]['path'])}")
    def between(self, w, sc, ph):
        w.snap[ph] = ({(t, i): self.counts_of(w, sc, t, i) for t in sc["solvers"] for i in range(len(sc["benches"]))},
                      {t: w.text(f"{ROOT}/{t}_output/features/on_features_qf_slia_{t}.csv") for t in sc["solvers"]})
    def complete(self, w, sc, t, snap):
        try: return all([int(x) for x in snap[0][t, i].decode().split("\n") if x] is not None for i in w.al)
        except (AttributeError, ValueError): return False
    def may_fail(self, w, sc, run): return run.st["script"] == "get_word_count_features" and not self.complete(w, sc, run.st["solver"], w.snap[run.st["phase"] - 1])
    def judge(self, v, w, sc, runs):
        for r in runs:
            t, ph = r.st["solver"], r.st["phase"]
            if r.st["script"] == "get_word_counts":
                if r.code == 0:
                    for i in sc["lists"][r.st["q"]]:
                        got = w.snap[ph][0][t, i]
                        v.nontrivial = True
                        if got is None: return v.fail("no-counts", f"no counts of {sc['benches'][i]['path']}")
                        if got.decode().split() != [str(x) for x in w.raw[t, i]] or len(got.decode().splitlines()) != len(w.raw[t, i]):
                            return v.fail("wrong-counts", f"{got!r:.200} for lines of {w.raw[t, i]} words")
            elif r.code == 0:
                got = (w.snap[ph][1][t] or b"").decode()
                if not self.complete(w, sc, t, w.snap[ph - 1]): return v.fail("unnoticed", "features of benchmarks whose counts are missing")
                want = [labels(DEFAULT)]
                for i in w.al:
                    n = [int(x) for x in w.snap[ph - 1][0][t, i].decode().split("\n") if x]
                    want.append([str(x) for x in features(n, DEFAULT)])
                have = [l.split(",") for l in got.splitlines()]
                v.nontrivial = True
                if have != want:
                    k = next((k for k in range(max(len(have), len(want))) if k >= len(have) or k >= len(want) or have[k] != want[k]), 0)
                    return v.fail("wrong-features" if len(have) == len(want) else "rows-out-of-step", f"line {k}: {have[k] if k < len(have) else None} instead of {want[k] if k < len(want) else None}")

# ---------------------------------------------------------------------------------------------- Y03, Y04
def bits(n):
    """The width the encoder announces: one more than ceil(log2(n) + 1) where n is a power of two."""
    return n.bit_length() + 1
def bound(f):
    if f["k"] == 0: x = min(f["vars"], f["constraints"]) * (f["b_max"] + 1) + 1
    else: x = ((f["a_max"] * f["w"]) ** f["k"]) * (f["vars"] + 2) * min(f["vars"] + 1, f["constraints"]) * (f["b_max"] + 1) + 1
    return bits(x)
def widths(f):
    """The widths to accept: floating-point logarithms may be off at powers of two."""
    if f["k"] == 0: x = min(f["vars"], f["constraints"]) * (f["b_max"] + 1) + 1
    else: x = ((f["a_max"] * f["w"]) ** f["k"]) * (f["vars"] + 2) * min(f["vars"] + 1, f["constraints"]) * (f["b_max"] + 1) + 1
    n = x.bit_length()
    return {n + 1} | ({n} if (x - (1 << n - 1)) << 40 <= x else set()) | ({n + 2} if ((1 << n) - x) << 40 <= x else set())
def naive(ps):
    f = {k: sum(p[k] for p in ps) for k in ("vars", "constraints", "k")}
    f.update({k: max(p[k] for p in ps) for k in ("a_max", "b_max", "w")})
    f["bound"] = bound(f)
    return f
ORDER = ["vars", "constraints", "a_max", "b_max", "k", "w", "bound"]
def partition(r):
    k = r.choice([0, 0, 0, 1, 2, 7, 40])
    f = {"vars": r.choice([1, 2, 3, 20, 5675]), "constraints": r.choice([1, 2, 5, 1551, 12138]), "a_max": r.choice([1, 1, 2, 3, 1000]), "b_max": r.choice([0, 1, 3, 85, 2147483647]), "k": k, "w": r.choice([1, 2, 3, 11])}
    f["bound"] = bound(f)
    return f
def part_line(r, f, odd=True):
    name = r.choice(["x", "y", "v1", "|a b|", "fmf0"] + (["|{0}|", "|x bits|", "|k: 3, w|"] if odd else []))
    return f"Partition '{name}': stats: Stats {{ vars: {f['vars']}, constraints: {f['constraints']}, a_max: {f['a_max']}, b_max: {f['b_max']}, k: {f['k']}, w: {f['w']} }}, bound: {f['bound']} bits"
def eager_behaviour(r, verdict, end, ts, lines):
    head = ["Solving p.smt2", f"Parse time: {r.randrange(1, 900)}.5µs"]
    tail = ["CNF: 10 vars, 20 clauses", "Encoding time: 5ms"]
    v = {"sat": ["Solve time: 1s", "sat", "x = 1"], "unsat": ["Solve time: 1s", "unsat"], "none": []}[verdict]
    j = lambda l: l1("".join(x + "\n" for x in l))
    return {"chunks": [[2, j(head)], [ts, j(lines)], [ts + 3, j(tail)]] + ([[max(end, ts + 4), j(v)]] if end is not None else []), "end": None if end is None else max(end, ts + 4) + 2, "code": 0 if verdict != "none" else 1}

def verdict_lines(r, what):
    return {"sat": ["sat"], "unsat": r.choice([["unsat"], ["unsat", '(error "line 9 column 10: model is not available")']]), "unknown": ["unknown"],
            "error": r.choice([['(error "line 1: unsat core unavailable")'], ["Error: sat solver interrupted."], []])}[what]

class Y03(Prop):
    id = "Y03"
    real = ["run_eager_v_lazy.py", "generate_predictions.parse_eager_encoding_output", "clean_eager_lazy_data.py's encoding of several partitions"]
    assumptions = ["No two solvers of a benchmark end within 0.3 s of each other or of a limit.", "A benchmark for which the eager encoder prints no statistics in its time ends the run with an error."]
    def gen(self, r):
        used = set()
        benches = []
        for _ in range(r.randrange(1, 5)):
            b = {"path": bench_path(r, used)}
            grid = [round(x * 100) for x in (2, 5, 9, 14, 20, 26, 33, 40, 60, 75, 90, 120, 200, 400, 900, 2000, 2800, 3100, 3500)]
            ts = r.sample(grid, 3)
            for s, t in zip(("z3", "cvc4"), ts):
                what = r.choice(["sat", "unsat", "sat", "unsat", "unknown", "error", "hang"])
                if what == "hang": b[s] = {"chunks": [[10, l1("(warning)\n")]] if r.random() < 0.5 else [], "end": None, "code": 0}
                else:
                    b[s] = {"chunks": [[max(1, t - 20), l1("".join(x + "\n" for x in verdict_lines(r, what)))]], "end": t, "code": 0 if what in ("sat", "unsat") and r.random() < 0.7 else r.choice([0, 1, 139])}
            parts = [partition(r) for _ in range(r.choice([1, 1, 2, 3]))]
            late = r.random() < 0.05
            tp = 320_000 if late else r.choice([5, 40, 700, 3000, 4400])
            what = r.choice(["sat", "unsat", "none", "hang"])
            b["ea"] = eager_behaviour(r, "none" if what == "hang" else what, None if what == "hang" else ts[2], tp, [part_line(r, f) for f in parts])
            b["parts"], b["tp"] = parts, tp
            benches.append(b)
        pre = prefix(r)
        steps = [{"script": "run_eager_v_lazy", "args": ["list0.csv", pre], "q": 0, "phase": ph} for ph in (0, 1)]
        return common(r, {"benches": benches, "lists": [list(range(len(benches)))], "prefix": pre, "steps": steps, "prefiles": r.random() < 0.2})
    def setup(self, w, sc):
        for s in ("cvc4", "z3", "amzn-smt-eager-arithmetic"): w.put(ROOT + "/solvers/" + s, "", True)
        w.at, w.snap = {}, {}
        for i, b in enumerate(sc["benches"]):
            q = w.norm(sc["prefix"] + "/" + b["path"], CWD)
            w.put(q, "(check-sat)\n")
            w.at[q] = i
        w.put(f"{CWD}/list0.csv", list_text(sc, [sc["benches"][i]["path"] for i in sc["lists"][0]]))
        if sc.get("prefiles"):
            for f in ("fastest_solver.csv", "features.csv"): w.put(f"{CWD}/{f}", "z3\n" * 50)
    def programs(self, sc):
        def solver(key):
            def f(w, p, argv, cwd, call, child):
                if key == "ea":
                    ok = len(argv) == 4 and argv[1] == "solve" and argv[2] in ("--instance", "-i")
                    pos = [argv[3]] if ok else len(argv) == 3 and argv[1] == "solve" and argv[2].startswith("--instance=") and [argv[2][11:]] or []
                else: pos = argv[1:]
                call["bench"] = w.at.get(w.norm(pos[0], cwd)) if len(pos) == 1 else None
                if call["bench"] is None: return [(5, "err", b"error: no such file\n"), (6, "exit", 2)]
                return timeline(sc["benches"][call["bench"]][key])
            return f
        return {"cvc4": solver("cvc4"), "z3": solver("z3"), "amzn-smt-eager-arithmetic": solver("ea")}
    def between(self, w, sc, ph): w.snap[ph] = [(w.text(f"{CWD}/{f}") or b"").decode("utf-8", "replace") for f in ("fastest_solver.csv", "features.csv")]
    def expect(self, sc, calls, i):
        """(label, feature row or None) of benchmark i, from the timelines of the children that ran for it."""
        best, label = 300_000, "None"
        by = {c["prog"]: c for c in calls if c.get("bench") == i}
        for prog, name in (("z3", "z3"), ("cvc4", "cvc4"), ("amzn-smt-eager-arithmetic", "sat")):
            b = sc["benches"][i][{"sat": "ea"}.get(name, name)]
            if prog in by:
                c = by[prog]
                out, end = emitted(c, 10 ** 9)
                t = None if end is None else (end - c["t"]) / MS
            else:
                out, t = "".join(x for _, x in b["chunks"]).encode("latin-1"), b["end"]
            if t is not None and t < best and any(l.strip() in (b"sat", b"unsat") for l in out.splitlines()):
                if name == "sat": lim = max(best, 5000)
                best, label = t, name
        # statistics: those printed while the encoder was allowed to run
        first = 300_000 if label in ("None",) else best
        z = 300_000
        for prog in ("z3", "cvc4"):
            if prog in by:
                out, end = emitted(by[prog], 10 ** 9)
                if end is not None and any(l.strip() in (b"sat", b"unsat") for l in out.splitlines()): z = min(z, (end - by[prog]["t"]) / MS)
        lim = max(z, 5000)
        row = None
        if "amzn-smt-eager-arithmetic" in by:
            out, _ = emitted(by["amzn-smt-eager-arithmetic"], lim)
            n = sum(1 for l in out.splitlines() if l.startswith(b"Partition"))
            ps = sc["benches"][i]["parts"][:n]
            if n == len(sc["benches"][i]["parts"]) and n: row = ps[0] if n == 1 else naive(ps)
        return label, row
    def judge(self, v, w, sc, runs):
        for r in runs:
            l = sc["lists"][0]
            for c in r.calls:
                if c.get("bench") is None: return v.fail("wrong-argument", f"{c['prog']} was given {c['argv']}")
                if not r.disturbed and getattr(c["child"], "killed_at", None) is None and c["child"].end is None: return v.fail("not-stopped", f"{c['prog']} was left running")
                if c["t"] and getattr(c["child"], "killed_at", None) and c["child"].killed_at > c["t"] + 301_000 * MS: return v.fail("not-stopped", f"{c['prog']} ran past its limit")
            labels_, rows = [x.splitlines() for x in w.snap[r.st["phase"]]]
            order = list(dict.fromkeys(c["bench"] for c in r.calls))
            if order != l[:len(order)]: return v.fail("wrong-order", f"{order} for {l}")
            for i in l:
                seen = Counter(c["prog"] for c in r.calls if c["bench"] == i)
                if any(n > 1 for n in seen.values()): return v.fail("run-twice", f"{seen}")
            need = len(l) if r.code == 0 else max(0, len(order) - 1) if not r.errors else 0
            if r.code == 0 and (len(labels_) != len(l) or len(rows) != len(l)): return v.fail("rows-out-of-step", f"{len(l)} benchmarks, {len(labels_)} labels, {len(rows)} feature rows")
            if need > len(labels_) or need > len(rows): return v.fail("results-lost", f"{need} benchmarks done, {len(labels_)} labels, {len(rows)} feature rows")
            if r.code != 0 and not r.disturbed and len(labels_) != len(rows): return v.fail("rows-out-of-step", f"{len(labels_)} labels, {len(rows)} feature rows")
            for k in range(need):
                label, row = self.expect(sc, r.calls, l[k])
                v.nontrivial = True
                if labels_[k] != label: return v.fail("wrong-label", f"benchmark {k}: {labels_[k]} instead of {label}: " + json.dumps({x: (y["end"], y["chunks"][-1:]) for x, y in sc["benches"][l[k]].items() if isinstance(y, dict)}))
                if row is None: return v.fail("made-up-features", f"{rows[k]} without statistics")
                got = rows[k].split(",")
                want = [str(row[x]) for x in ORDER]
                if got[:6] != want[:6] or len(got) != 7 or int(got[6]) not in ({row["bound"]} if len(sc["benches"][l[k]]["parts"]) == 1 else widths(row)):
                    return v.fail("wrong-features", f"benchmark {k}: {got} instead of {want}")
    def may_fail(self, w, sc, r):
        l = sc["lists"][0]
        return any(self.expect(sc, r.calls, i)[1] is None for i in l if any(c["bench"] == i and c["prog"].startswith("amzn") for c in r.calls))

class Y04(Prop):
    id = "Y04"
    real = ["find_faster_fmf.py"]
    assumptions = ["The two runs of a benchmark do not end within 0.3 s of each other."]
    def gen(self, r):
        used = set()
        benches = []
        for _ in range(r.randrange(1, 6)):
            ts = r.sample([300, 700, 1200, 2500, 9000, 29_000, 31_000, 150_000, 298_000, 304_000, 700_000, None, None], 2)
            b = {"path": bench_path(r, used)}
            for k, t in zip(("fmf", "plain"), ts): b[k] = {"chunks": [[5, "sat\n"]], "end": t, "code": r.choice([0, 0, 1])}
            benches.append(b)
        pre = prefix(r)
        steps = [{"script": "find_faster_fmf", "args": ["list0.csv", pre], "q": 0, "phase": ph} for ph in (0, 1)]
        return common(r, {"benches": benches, "lists": [list(range(len(benches)))], "prefix": pre, "steps": steps, "prefiles": r.random() < 0.2})
    def setup(self, w, sc):
        w.put(ROOT + "/solvers/cvc4", "", True)
        w.at, w.snap = {}, {}
        for i, b in enumerate(sc["benches"]):
            q = w.norm(sc["prefix"] + "/" + b["path"], CWD)
            w.put(q, "(check-sat)\n")
            w.at[q] = i
        w.put(f"{CWD}/list0.csv", list_text(sc, [sc["benches"][i]["path"] for i in sc["lists"][0]]))
        if sc.get("prefiles"):
            for f in self.files: w.put(f"{CWD}/{f}", "1,2\n" * 50)
    files = ("faster_fmf.csv", "slower_fmf.csv", "runtimes_fmf_exp.csv")
    def programs(self, sc):
        def cvc4(w, p, argv, cwd, call, child):
            pos = [a for a in argv[1:] if not a.startswith("--")]
            opt = sorted(a for a in argv[1:] if a.startswith("--"))
            call["mode"] = "fmf" if opt == ["--strings-exp", "--strings-fmf"] else "plain" if opt == ["--strings-exp"] else None
            call["bench"] = w.at.get(w.norm(pos[0], cwd)) if len(pos) == 1 else None
            if call["bench"] is None or call["mode"] is None: return [(5, "err", b"error\n"), (6, "exit", 2)]
            return timeline(sc["benches"][call["bench"]][call["mode"]])
        return {"cvc4": cvc4}
    def between(self, w, sc, ph): w.snap[ph] = [(w.text(f"{CWD}/{f}") or b"").decode("utf-8", "replace") for f in self.files]
    def judge(self, v, w, sc, runs):
        for r in runs:
            l = sc["lists"][0]
            for c in r.calls:
                if c.get("bench") is None or c.get("mode") is None: return v.fail("wrong-argument", f"cvc4 was given {c['argv']}")
            order = list(dict.fromkeys(c["bench"] for c in r.calls))
            if order != l[:len(order)]: return v.fail("wrong-order", f"{order} for {l}")
            need = len(l) if r.code == 0 else max(0, len(order) - 1) if not r.errors else 0
            fa, sl, rt = [x.splitlines() for x in w.snap[r.st["phase"]]]
            wf, ws, wr = [], [], []
            for i in l[:need]:
                t = {}
                for c in r.calls:
                    if c["bench"] == i:
                        if c["mode"] in t: return v.fail("run-twice", f"benchmark {i}")
                        out, end = emitted(c, 300_000)
                        t[c["mode"]] = 300.0 if end is None else (end - c["t"]) / 1e9
                if len(t) != 2: return v.fail("not-every-benchmark", f"benchmark {i} ran only as {list(t)}")
                path = sc["benches"][i]["path"]
                if abs(t["fmf"] - t["plain"]) < 0.2 and any(a == "kill" for _, a in r.hits): (wf if path in fa else ws).append(path)   # a killed run may tie
                else: (wf if t["fmf"] < t["plain"] - 0.1 else ws).append(path)
                wr.append((t["fmf"], t["plain"]))
                v.nontrivial = True
            cut = (lambda x, n: x) if r.code == 0 else (lambda x, n: x[:n])
            if cut(fa, len(wf)) != wf or cut(sl, len(ws)) != ws: return v.fail("wrong-list", f"faster {fa} slower {sl} instead of {wf} and {ws}; times {wr}")
            try: got = [tuple(float(x) for x in y.split(",")) for y in cut(rt, len(wr))]
            except ValueError: return v.fail("wrong-times", f"{rt}")
            if len(got) != len(wr): return v.fail("rows-out-of-step", f"{len(got)} rows of times for {len(wr)} benchmarks")
            for a, b in zip(got, wr):
                if len(a) != 2 or abs(a[0] - b[0]) > 0.3 or abs(a[1] - b[1]) > 0.3: return v.fail("wrong-times", f"{a} instead of {b}")

# ---------------------------------------------------------------------------------------------- Y05
OFF = "str_concat,len,to_re,in_re,re_concat,re_union,re_kleene_star,sing_str_at,substr,prefix_of,contains,index_of,replace,re_kleene_cross,re_range,to_int,from_int"
RUNTIME = ['solve quickly (30 to 60 seconds)', 'solve slowly (1 to 12 minutes)', 'timeout (over 20 minutes)']
LAZY = ['Lazy Approach via CVC4', 'Lazy Approach via Z3', 'Eager Approach via SAT']
class Y05(Prop):
    id = "Y05"
    real = ["generate_predictions.py", "get_solver_output.get_cvc4_output", "get_word_counts.write_word_counts", "get_word_count_features.py's features"]
    assumptions = ["The model's answer never has two equal maxima, nor a probability of --strings-fmf within half a percent of one half.", "A run that dies may leave its temporary files."]
    def gen(self, r):
        used = set()
        benches, steps, configs = [], [], []
        n = r.choice([1, 1, 2, 3])
        for k in range(n):
            slia = r.random() < 0.65
            path = r.choice(["examples", "/data", "../b c"]) + bench_path(r, used)
            b = {"path": path, "slia": slia}
            if slia:
                b["row"] = [r.choice([0, 0, 1, 2, r.randrange(3000)]) for _ in range(17)]
                b["off"] = r.choice(["ok"] * 6 + ["fail", "partial", "half"])
                b["b"] = behaviour(r, text_lines(r, r.choice([0, 1, 5, 20])), 10_000, garbage=True)
            else:
                parts = [partition(r) for _ in range(r.choice([1, 1, 2, 3]))]
                tp = 9000 if r.random() < 0.1 else r.choice([5, 300, 4300])
                what = r.choice(["sat", "unsat", "none", "hang", "hang"])
                b["parts"] = parts
                b["b"] = eager_behaviour(r, "none" if what == "hang" else what, None if what == "hang" else r.choice([20, 4000, 4400, 30_000]), tp, [part_line(r, f) for f in parts])
            benches.append(b)
            p = [round(r.random(), 4) for _ in range(3)]
            while max(p) - sorted(p)[1] < 0.01: p = [round(r.random(), 4) for _ in range(3)]
            q = round(r.random(), 4)
            while abs(q - 0.5) < 0.006: q = round(r.random(), 4)
            c = {"theory": "QF_SLIA" if slia else r.choice(["QF_IDL", "QF_LIA"]), "verbosity": r.choice(["Full", "Pretty", "Vector", None]), "fmf": slia and r.random() < 0.5, "answer": p, "fmf_answer": q}
            c["fmf_endpoint"] = c["fmf"] and r.random() < 0.85
            nb = 9
            if slia and r.random() < 0.4:
                x = r.sample(range(1, 120), r.randrange(1, 6))
                x += [y + 1 for y in x[:1] if y + 1 not in x]
                c["buckets"] = sorted(set(x))
                nb = len(c["buckets"])
            if slia and r.random() < 0.5:
                c["means"] = [round(r.uniform(0, 900), 4) for _ in range(17 + nb + 1)]
                c["stds"] = [0 if r.random() < 0.1 else round(r.uniform(0.5, 900), 4) for _ in range(17 + nb + 1)]
            configs.append(c)
            steps.append({"script": "generate_predictions", "args": [path, f"c{k}.ini"], "q": k, "phase": 0, "delay": r.choice([0, 0, 1, 30, 2000])})
        return {"benches": benches, "configs": configs, "lists": [], "steps": steps, "prefiles": r.random() < 0.15}
    def setup(self, w, sc):
        for s in ("/amzn-smt-prediction/solvers/cvc4", "/amzn-smt-prediction/release/amzn-smt-prediction", "/amzn-smt-eager-arithmetic/release/amzn-smt-eager-arithmetic"): w.put("/r" + s, "", True)
        w.at = {}
        for i, b in enumerate(sc["benches"]):
            q = w.norm(b["path"], CWD)
            w.put(q, "(check-sat)\n")
            w.at[q] = i
        for k, c in enumerate(sc["configs"]):
            t = f"[REQUIRED]\nTheory = {c['theory']}\n"
            if c["theory"] == "QF_SLIA":
                t += f"EndpointRuntime = rt{k}\n"
                if c["fmf_endpoint"]: t += f"EndpointFmf = fmf{k}\n"
            else: t += f"EndpointEagerVLazy = el{k}\n"
            o = "[OPTIONAL]\nSolver = CVC4\n" + f"FMF = {c['fmf']}\n"
            if c.get("means"): o += f"M1FeatureMeans = {c['means']}\nM1FeatureStds = {c['stds']}\n"
            if c.get("buckets"): o += f"Buckets = {c['buckets']}\n"
            if c["verbosity"]: o += f"Verbosity = {c['verbosity']}\n"
            w.put(f"{CWD}/c{k}.ini", t + "\n" + o)
            if sc.get("misuse"):
                w.put(f"{CWD}/bad{k}.ini", t.replace(c["theory"], "QF_BV") + "\n" + o)
                w.put(f"{CWD}/bare{k}.ini", f"[REQUIRED]\nTheory = {c['theory']}\n\n" + o)
                w.put(f"{CWD}/other{k}.ini", f"[REQUIRED]\nTheory = {c['theory']}\n" + ("EndpointEagerVLazy = el0\n" if c["theory"] == "QF_SLIA" else "EndpointRuntime = rt0\n") + "\n" + o)
        if sc.get("prefiles"): w.put(f"{CWD}/off_features_smtcomp.csv", OFF + "\n")
        w.before = set(w.nodes)
        def answer(p, endpoint, data):
            k = int(re.sub(r"\D", "", endpoint))
            return sc["configs"][k]["fmf_answer" if endpoint.startswith("fmf") else "answer"]
        w.predict = answer
    def programs(self, sc):
        def off(w, p, argv, cwd, call, child):
            if len(argv) != 4 or argv[1] != "script":
                call["bad"] = True
                return [(1, "exit", 1)]
            out = w.norm(f"off_features_{argv[3]}.csv", cwd)
            names = (w.text(w.norm(argv[2], cwd)) or b"").decode()
            v = [w.at.get(w.norm(x, cwd)) for x in names.splitlines()]
            call["bench"] = v[0] if len(v) == 1 else None
            if call["bench"] is None: return [(2, "do", lambda: w.put(out, OFF + "\n")), (3, "exit", 1 if v else 0)]
            b = sc["benches"][call["bench"]]
            if b["off"] is None or not b["slia"]: return [(1, "exit", 1)]
            row = ",".join(map(str, b["row"])) + "\n"
            d = 20 + sum(b["row"]) % 400
            mine = []
            def create():
                w.put(out, OFF + "\n")
                mine.append(w.nodes[out])
            ev = [(2, "do", create)]
            add = lambda s: (lambda: mine[0].data.extend(s.encode()))
            if b["off"] == "fail": return ev + [(5, "out", b"Error on current benchmark.\n"), (6, "exit", 1)]
            if b["off"] == "partial": return ev + [(5, "do", add(row[:7])), (6, "exit", 134)]
            if b["off"] == "half": return ev + [(5, "do", add(row)), (6, "exit", 1)]
            return ev + [(d, "do", add(row)), (d + 1, "exit", 0)]
        def rm(w, p, argv, cwd, call, child):
            def go():
                for a in argv[1:]:
                    if not a.startswith("-"): w.nodes.pop(w.norm(a, cwd), None)
            return [(1, "do", go), (2, "exit", 0)]
        def prog(kind):
            def f(w, p, argv, cwd, call, child):
                if kind == "ea":
                    ok = len(argv) == 4 and argv[1] == "solve" and argv[2] in ("--instance", "-i")
                    pos = [argv[3]] if ok else len(argv) == 3 and argv[1] == "solve" and argv[2].startswith("--instance=") and [argv[2][11:]] or []
                else: pos = [a for k, a in enumerate(argv[1:], 1) if not a.startswith("-") and argv[k - 1] != "-t"]
                call["bench"] = w.at.get(w.norm(pos[0], cwd)) if len(pos) == 1 else None
                if call["bench"] is None: return [(5, "err", b"Error: no such file\n"), (6, "exit", 1)]
                return timeline(sc["benches"][call["bench"]]["b"])
            return f
        return {"amzn-smt-prediction": off, "rm": rm, "cvc4": prog("cvc4"), "amzn-smt-eager-arithmetic": prog("ea")}
    def misuses(self, sc, st):
        k = int(re.sub(r"\D", "", st["args"][1]))
        c, slia = sc["configs"][k], sc["benches"][k]["slia"]
        return [[st["args"][:j], []] for j in range(2)] + [[[st["args"][0], "none.ini"], []], [[st["args"][0], f"bad{k}.ini"], []], [[st["args"][0], f"other{k}.ini"], []], [[st["args"][0], f"bare{k}.ini"], []],
            [st["args"], ["/r/amzn-smt-prediction/release/amzn-smt-prediction" if slia else "/r/amzn-smt-eager-arithmetic/release/amzn-smt-eager-arithmetic"]]]
    def expected(self, sc, r):
        """The requests run r must send, in order; None where the features cannot be had."""
        k = r.st["q"]
        b, c = sc["benches"][k], sc["configs"][k]
        if b["slia"]:
            calls = [x for x in r.calls if x["prog"] == "cvc4"]
            offs = [x for x in r.calls if x["prog"] == "amzn-smt-prediction"]
            if not offs or b["off"] != "ok" or not any(kind == "exit" and x == 0 for _, kind, x in offs[0]["child"].plan): return None
            if not calls: return None
            raw, _ = emitted(calls[0], 10_000)
            on = features(word_counts(raw.decode("utf-8", "replace").strip()), c.get("buckets") or DEFAULT)
            alt = features(word_counts(raw.decode("utf-8", "replace")), c.get("buckets") or DEFAULT)
            res = []
            for o in (on, alt):
                f = b["row"] + o
                if c.get("means"): f = [x if s == 0 else (x - m) / s for x, m, s in zip(f, c["means"], c["stds"])]
                res.append([(f"rt{k}", f)] + ([(f"fmf{k}", o)] if c["fmf_endpoint"] else []))
            return res
        calls = [x for x in r.calls if x["prog"] == "amzn-smt-eager-arithmetic"]
        if not calls: return None
        raw, _ = emitted(calls[0], 5000)
        n = sum(1 for l in raw.splitlines() if l.startswith(b"Partition"))
        ps = b["parts"]
        if n != len(ps) or not n: return None
        f = ps[0] if n == 1 else naive(ps)
        res = []
        for x in sorted(widths(f)) if n > 1 else (f["bound"],): res.append([(f"el{k}", [f[y] for y in ORDER[:6]] + [x])])
        return res
    def judge(self, v, w, sc, runs):
        for r in runs:
            k = r.st["q"]
            b, c = sc["benches"][k], sc["configs"][k]
            for x in r.calls:
                if x["prog"] == "cvc4":
                    want = {"--strings-exp", "--rewrite-divk", "-t"} | ({"--strings-fmf"} if c["fmf"] else set())
                    if {a for a in x["argv"] if a.startswith("-")} != want: return v.fail("wrong-options", f"{x['argv']}")
                if x.get("bad") or (x["prog"] != "rm" and x.get("bench") != k and not r.disturbed): return v.fail("wrong-argument", f"{x['prog']} was given {x['argv']}")
            got = [x for x in w.requests if x["p"] == r.idx]
            want = self.expected(sc, r)
            close = lambda a, b: len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(1, abs(x), abs(y)) for x, y in zip(a, b))
            if got and want is None: return v.fail("made-up-features", f"request {got[0]['endpoint']} {got[0]['data']} although features are missing")
            if got:
                fits = lambda p: len(got) <= len(p) and all(g["endpoint"] == e and close(g["data"], f) for g, (e, f) in zip(got, p))
                v.nontrivial = True
                if not any(fits(p) for p in want):
                    return v.fail("wrong-features", f"sent {[(g['endpoint'], g['data']) for g in got]!r:.300} instead of {want[0]!r:.300}")
                if not all(g["csv"] for g in got): return v.fail("wrong-serializer", "the features are not sent as CSV")
            if r.code == 0:
                if want is None or len(got) != len(want[0]): return v.fail("unnoticed", f"exit 0 with requests {[g['endpoint'] for g in got]}")
                self.output(v, r, b, c)
                shown = next((l[len("Feature Vector: "):] for l in r.out.splitlines() if l.startswith("Feature Vector: ")), None)
                if shown is not None and got:
                    x = [float(y) for y in re.findall(r"-?\d+(?:\.\d+)?(?:e[-+]?\d+)?", shown)]
                    if not close(x, got[0]["data"]): return v.fail("wrong-report", f"shows {shown:.200} but sends {got[0]['data']!r:.200}")
            if v.violation: return
        if not any(r.disturbed or any(c == "child" for c, _ in r.hits) for r in runs):
            left = [x for x in set(w.nodes) - w.before if "__pycache__" not in x]
            if left: v.fail("left-over-files", f"{sorted(left)}")
    def output(self, v, r, b, c):
        mode = c["verbosity"] or "Full"
        lines = r.out.splitlines()
        nums = lambda s: [float(x) for x in re.findall(r"\d+\.?\d*(?:e-?\d+)?", s)]
        names = RUNTIME if b["slia"] else LAZY
        best = max(range(3), key=lambda i: c["answer"][i])
        if mode == "Vector":
            vals = []
            for l in lines:
                try: vals.append(ast.literal_eval(l.strip()))
                except (ValueError, SyntaxError): pass
            if c["answer"] not in vals: return v.fail("wrong-report", f"{lines} does not show {c['answer']}")
            if b["slia"] and c["fmf"] and c["fmf_answer"] not in vals: return v.fail("wrong-report", f"{lines} does not show {c['fmf_answer']}")
            return
        said = [l for l in lines if "predicted" in l and "%" in l]
        first = [l for l in said if any(n in l for n in names)]
        if len(first) != 1 or [n for n in names if n in first[0]] != [names[best]] or not any(abs(x - 100 * max(c["answer"])) < 0.011 for x in nums(first[0])):
            return v.fail("wrong-report", f"{said} for {c['answer']}")
        if b["slia"]:
            if ("ENABLED" in first[0]) != c["fmf"]: return v.fail("wrong-report", f"{first[0]} with FMF = {c['fmf']}")
            if c["fmf"]:
                rest = [l for l in said if l is not first[0]]
                on = c["fmf_answer"] > 0.5
                conf = 100 * (c["fmf_answer"] if on else 1 - c["fmf_answer"])
                if len(rest) != 1 or ("ENABLED" in rest[0]) != on or ("DISABLED" in rest[0]) == on or not any(abs(x - conf) < 0.011 for x in nums(rest[0])):
                    return v.fail("wrong-report", f"{rest} for {c['fmf_answer']}")
        if mode == "Full" and b["slia"]:
            l = next((l for l in lines if l.startswith("Feature Labels: ")), None)
            if l is not None and l[len("Feature Labels: "):] != OFF + "," + ",".join(labels(c.get("buckets") or DEFAULT)): return v.fail("wrong-labels", l)
    def may_fail(self, w, sc, r):
        b, c = sc["benches"][r.st["q"]], sc["configs"][r.st["q"]]
        if c["fmf"] and not c["fmf_endpoint"]: return True
        # a run that never got to the program that makes the features has no such excuse
        if b["slia"]: return b["off"] != "ok" or any(k == "child" for k, _ in r.hits)
        return any(x["prog"] == "amzn-smt-eager-arithmetic" for x in r.calls) and self.expected(sc, r) is None

# ---------------------------------------------------------------------------------------------- Y06
class Y06(Prop):
    id = "Y06"
    real = ["modernize_benchmarks.py"]
    assumptions = ["The lists hold the names <benchmark>_upt.smt2 or <benchmark>_upt.smtlib, as the script asks for."]
    def gen(self, r):
        used = set()
        benches = []
        for _ in range(r.randrange(0, 7)):
            p = bench_path(r, used, "")
            p = p if r.random() < 0.8 else p + r.choice(["_upt", ".x", ".smt2"])
            benches.append({"path": p, "ext": r.choice([".smt2", ".smtlib"]), "b": {"chunks": [[3, "ok\n"]], "end": r.choice([5, 200, 30_000]), "code": r.choice([0, 0, 0, 1, 101])}})
        m = r.choice([1, 1, 2])
        lists = [[] for _ in range(m)]
        for i in range(len(benches)): lists[r.randrange(m)].append(i)
        pre = prefix(r).rstrip("/")
        steps = [{"script": "modernize_benchmarks", "args": [f"list{k}.csv", pre], "q": k, "phase": ph} for ph in (0, 1) for k in range(m)]
        return common(r, {"benches": benches, "lists": lists, "prefix": pre, "steps": steps})
    def setup(self, w, sc):
        w.put("/r/amzn-smt-string-fct-updater/release/amzn-smt-string-fct-updater", "", True)
        w.at = {}
        for i, b in enumerate(sc["benches"]):
            q = w.norm(sc["prefix"] + b["path"], CWD)
            w.put(q + b["ext"], "(check-sat)\n")
            w.at[q] = i
        for k, l in enumerate(sc["lists"]): w.put(f"{CWD}/list{k}.csv", list_text(sc, [sc["benches"][i]["path"] + "_upt" + sc["benches"][i]["ext"] for i in l]))
    def programs(self, sc):
        def upd(w, p, argv, cwd, call, child):
            call["bench"] = w.at.get(w.norm(argv[1], cwd)) if len(argv) == 2 else None
            if call["bench"] is None: return [(1, "exit", 1)]
            return timeline(sc["benches"][call["bench"]]["b"], b"trace\n")
        return {"amzn-smt-string-fct-updater": upd}
    def judge(self, v, w, sc, runs):
        for r in runs:
            l = sc["lists"][r.st["q"]]
            for c in r.calls:
                if c.get("bench") is None: return v.fail("wrong-argument", f"the updater was given {c['argv']}; list {[sc['benches'][i]['path'] + '_upt' + sc['benches'][i]['ext'] for i in l]}")
            done = [c["bench"] for c in r.calls]
            v.nontrivial |= bool(done)
            if r.code == 0 and Counter(done) != Counter(l): return v.fail("not-every-benchmark", f"list {l}, updater runs {done}")
            if Counter(done) - Counter(l): return v.fail("not-listed", f"list {l}, updater runs {done}")
            for a, b in zip(r.calls, r.calls[1:]):
                if a["child"].end is not None and a["child"].end > b["t"]: return v.fail("not-awaited", "an updater was started before the one before it ended")

# ---------------------------------------------------------------------------------------------- Y07
class Y07(Prop):
    id = "Y07"
    real = ["clean_smt_comp_results.py", "clean_eager_lazy_data.py"]
    assumptions = ["Benchmarks of the eager-versus-lazy results have names of their own, and no two equal times.", "Rows of the competition's results have no commas inside fields."]
    def gen(self, r):
        sc = {"kind": r.choice(["comp", "lazy"]), "lists": [], "benches": []}
        if sc["kind"] == "comp":
            used, rows = set(), []
            for _ in range(r.randrange(0, 14)):
                fam = r.choice(["QF_SLIA/2019-full_str_int/x/y", "QF_SLIA/2019-Jiang/slog", "QF_SLIA/20180523-Reynolds/pyex/peterc-pyex-doc-cav17-z3/m", "QF_SLIA/2018-Kepler/a/b/c", "QF_SLIA/2015-Norn", "QF_S/2019-Jiang/slog", "QF_SLIA/20180523-Reynolds/pyex/td/m"])
                name = fam + "/" + bench_path(r, used)[1:].replace(",", "")
                for s in r.sample(["CVC4-sq-final", "Z3str4 SMTCOMP2020 v1.1", "z3-4.8.8"], r.randrange(1, 4)):
                    st = r.choice(["complete"] * 4 + ["timeout (wallclock)"]) if r.random() > 0.01 else r.choice(["memout", "run script failed"])
                    t = r.choice(["0.5", "29.999", "30", "30.0", "41.1333", "299.99", "300", "310.2", "329.9", "330", "359.164", "1199.5", "1200.3"])
                    rows.append([str(r.randrange(10 ** 6)), "non-incremental/" + name, "1", s, "2", "3", "4", st, "1.0", t, "7", "sat", "sat"])
            names = sorted({x[1][len("non-incremental/"):] for x in rows})
            sc["rows"] = rows
            sc["excl"] = [[n for n in names if r.random() < 0.12], [n for n in names if r.random() < 0.12]]
            sc["steps"] = [{"script": "clean_smt_comp_results", "args": [], "phase": ph} for ph in (0, 1)]
        else:
            used, rows = set(), []
            for _ in range(r.randrange(0, 9)):
                name = bench_path(r, used)[1:].split("/")[-1].replace(",", "")
                if any(x[0] == name for x in rows): continue
                rows.append([name, r.sample(["0.035", "1.042", "59.009", "3600.814", "3600.917", "12", "100.5", "2e3"], 3), [partition(r) for _ in range(r.choice([1, 1, 2, 3]))]])
            sc["rows"] = rows
            sc["theory"] = r.choice(["idl", "lia"])
            sc["porder"] = r.sample(range(len(rows)), len(rows))
            sc["missing"] = r.random() < 0.06
            sc["solvers"] = r.sample(["cvc4", "z3", "sat"], 3)
            sc["steps"] = [{"script": "clean_eager_lazy_data", "args": [sc["theory"]], "phase": ph} for ph in (0, 1)]
        sc["prefiles"] = r.random() < 0.3
        return common(r, sc)
    def inputs(self, sc):
        if sc["kind"] == "comp": return [f"/r/amzn-smt-prediction/SMT_Comp_2020/{x}" for x in ("Job_info_orig.csv",)]
        return [f"/r/amzn-smt-prediction/Eager_Lazy/{sc['theory']}_results.csv"]
    def outputs(self, sc):
        if sc["kind"] == "comp":
            e = ROOT + "/SMT_Comp_2020/experiments_QF_SLIA/"
            return [e + "benchmarks_QF_SLIA_30-to-300.csv", e + "times_QF_SLIA_30-to-300.csv", e + "benchmarks_QF_SLIA_300-to-1200.csv", e + "times_QF_SLIA_300-to-1200.csv"]
        e = ROOT + "/Eager_Lazy/"
        return [e + f"{x}_{sc['theory']}.csv" for x in ("benchmarks", "best_solver", "features")]
    def setup(self, w, sc):
        w.snap = {}
        if sc["kind"] == "comp":
            d = ROOT + "/SMT_Comp_2020/"
            w.mkdirs(d + "experiments_QF_SLIA")
            w.put(d + "Job_info_orig.csv", list_text({**sc, "nonl": False}, ["pair id,benchmark,benchmark id,solver,solver id,configuration,configuration id,status,cpu time,wallclock time,memory usage,result,expected"] + [",".join(x) for x in sc["rows"]]))
            for f, l in zip(("disagreements_SLIA", "excluded_SLIA"), sc["excl"]): w.put(d + "excluded_benchmarks/" + f, list_text(sc, l))
        else:
            d = ROOT + "/Eager_Lazy/"
            w.put(d + sc["theory"] + "_results.csv", list_text(sc, ["\ufeffbench," + ",".join(sc["solvers"])] + [",".join([x[0]] + x[1]) for x in sc["rows"]]))
            v = []
            for k in [k for k in sc["porder"] if k < len(sc["rows"])][1 if sc["missing"] else 0:]:
                v.append("Encoding /home/u/QF_LIA/dir/" + sc["rows"][k][0])
                for f in sc["rows"][k][2]: v.append(", ".join(f"{x}: {f[x]}" for x in ORDER) + " bits")
            w.put(d + sc["theory"] + "_params.out", list_text(sc, v))
        if sc.get("prefiles"):
            for f in self.outputs(sc): w.put(f, "old\n" * 700)
    def between(self, w, sc, ph): w.snap[ph] = [(w.text(f) or b"").decode("utf-8", "replace").splitlines() for f in self.outputs(sc)]
    def chosen(self, f): return f[1] == "QF_SLIA" and (f[2] in ("2019-full_str_int", "2019-Jiang") or (len(f) > 4 and f[4] == "peterc-pyex-doc-cav17-z3"))
    def want(self, sc):
        if sc["kind"] == "comp":
            a, b, c, d = [], ["time"], [], ["time"]
            bad = set(sc["excl"][0]) | set(sc["excl"][1])
            for x in sc["rows"]:
                f = x[1].split("/")
                name = "/".join(f[1:])
                if not self.chosen(f): continue
                t = 1200.0 if x[7].startswith("timeout") else float(x[9])
                if name in bad or x[3] != "CVC4-sq-final": continue
                if 30 <= t < 300: a.append("/non-incremental/" + name); b.append(t)
                elif t >= 330: c.append("/non-incremental/" + name); d.append(t - 300)
            return [a, b, c, d]
        rows = sc["rows"]
        best = [sc["solvers"][min(range(3), key=lambda i: float(x[1][i]))] for x in rows]
        f = [x[2][0] if len(x[2]) == 1 else naive(x[2]) for x in rows]
        return [["benchmarks"] + [x[0] for x in rows], ["solver"] + best, [",".join(ORDER)] + [",".join(str(y[x]) for x in ORDER) for y in f]]
    def judge(self, v, w, sc, runs):
        want = self.want(sc)
        for r in runs:
            if r.code != 0: continue
            if self.may_fail(w, sc, r): return v.fail("unnoticed", "exit 0 although a benchmark has no parameters or no known status")
            got = w.snap[r.st["phase"]]
            v.nontrivial |= len(sc["rows"]) > 0
            for f, a, b in zip(self.outputs(sc), got, want):
                ok = len(a) == len(b)
                for j, (x, y) in enumerate(zip(a, b)):
                    if isinstance(y, float): ok = ok and abs(float(x) - y) < 1e-6
                    elif sc["kind"] == "lazy" and "features" in f and "," in y and y[0].isdigit():
                        p, q = x.split(","), y.split(",")
                        ok = ok and p[:6] == q[:6] and len(p) == 7 and (p[6] == q[6] or (len(sc["rows"][j - 1][2]) > 1 and int(p[6]) in widths(dict(zip(ORDER, map(int, q))))))
                    else: ok = ok and x == y
                if not ok: return v.fail("wrong-list", f"{os.path.basename(f)} holds {a!r:.250} instead of {b!r:.250}")
    def may_fail(self, w, sc, run):
        if sc["kind"] == "comp": return any(x[7] in ("memout", "run script failed") and self.chosen(x[1].split("/")) for x in sc["rows"])
        return sc["missing"] and len(sc["rows"]) > 0

PROPS = {p.id: p for p in (Y01(), Y02(), Y03(), Y04(), Y05(), Y06(), Y07())}
