"""Deterministic simulation of the Python scripts of amzn-smt-prediction.

  dst.py check ID [--tier T] [--seed N] [--seeds N] [--wall S] [--threads N] [--survey 1] --repo R --out F --replays D --known F
  dst.py seed ID N      dst.py replay FILE
"""
import sys, os, json, time, random, hashlib, signal, select, resource

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B", *sys.argv])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import machine as M
from machine import World, Proc, MS, SEC
M.install()
import props

REAL_CLOCK = M._real["monotonic"]

def args_of(argv):
    pos, kw, i = [], {}, 0
    while i < len(argv):
        if argv[i].startswith("--"):
            kw[argv[i][2:]] = argv[i + 1] if i + 1 < len(argv) else ""
            i += 2
        else:
            pos.append(argv[i])
            i += 1
    return pos, kw

def load(kw):
    repo = kw.get("repo", os.environ.get("VERIF_REPO", "/repo"))
    M.FINDER.scripts = M.Scripts(repo + "/amzn-smt-prediction/scripts")

def known(path, id):
    if not os.path.exists(path): return []
    j = json.load(open(path))
    return [f for f in j["findings"] if f["property"] == id and f.get("status") == "open"]

def mix(base, i):
    return int.from_bytes(hashlib.blake2b(f"{base}/{i}".encode(), digest_size=7).digest(), "big")

def spinning(*_):
    """A run that uses the processor without ever reaching the seam: end its scripts."""
    import ctypes
    for t, pr in list(M.BY.items()):
        pr.w.endless = True
        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t), ctypes.py_object(M.Crash))
signal.signal(signal.SIGVTALRM, spinning)

def execute(p, sc, trace=False):
    v = props.Verdict()
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, 4, 2)
        try:
            p.exec(sc, v, trace)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except props.Invalid as e:
        v.tags.append("invalid")
        v.violation = None
    return v

def minimise(p, sc, kind, budget):
    t0, tries = REAL_CLOCK(), 0
    cur = sc
    if "sched_seed" in sc:
        v = execute(p, sc)
        c = dict(sc)
        del c["sched_seed"]
        c["schedule"] = v.choices
        tries += 1
        w = execute(p, c)
        if w.violation and w.violation[0] == kind: cur = c
    again = True
    while again:
        again = False
        for c in props.shrink(cur):
            if REAL_CLOCK() - t0 > budget or tries > 4000: return cur, tries
            if c == cur: continue
            tries += 1
            try:
                v = execute(p, c)
            except Exception:
                continue
            if v.violation and v.violation[0] == kind:
                cur, again = c, True
                break
    return cur, tries

class Stats:
    def __init__(self):
        self.n = dict(evaluations=0, sim_ns=0, steps=0, switches=0, procs=0, nontrivial=0, rechecked=0, nondet=0, seeds=0, harness_errors=0)
        self.errors = []
        self.keys, self.hist, self.tags, self.samples, self.unrep, self.known, self.survey = set(), set(), {}, [], [], {}, {}
    def add(self, v):
        n = self.n
        n["evaluations"] += 1
        n["sim_ns"] += v.sim_ns
        n["steps"] += v.steps
        n["switches"] += v.switches
        n["procs"] += v.procs
        self.hist.add(v.hash)
        for t in v.tags: self.tags[t] = self.tags.get(t, 0) + 1
    def merge(self, o):
        for k, x in o.n.items(): self.n[k] += x
        self.keys |= o.keys
        self.hist |= o.hist
        for a, b in ((self.tags, o.tags), (self.known, o.known)):
            for k, x in b.items(): a[k] = a.get(k, 0) + x
        self.samples += o.samples
        self.unrep += o.unrep
        self.errors += o.errors
        for k, x in o.survey.items(): self.survey[k] = min(x, self.survey.get(k, x))

def worker(p, k, nw, base, maxs, wall, t0, survey, kinds, stop):
    """Every nw-th seed, until the end or a violation."""
    st, found = Stats(), None
    i = k
    while i < maxs and REAL_CLOCK() - t0 < wall and not stop():
        recheck = []
        for sc in p.scenarios(random.Random(mix(base, i))):
            try:
                v = execute(p, sc)
            except Exception as e:
                import traceback
                st.n["harness_errors"] += 1
                if len(st.errors) < 2: st.errors.append(f"seed {i}: " + "".join(traceback.format_exception(e)))
                continue
            st.add(v)
            if v.nontrivial:
                st.n["nontrivial"] += 1
                st.keys.add(v.hash)
                if len(st.samples) < 1 and i % 5 == 3: st.samples.append({"seed": i, "scenario": sc, "tags": v.tags})
            if (i % 23 == 0 and len(recheck) < 2) or v.violation: recheck.append((sc, v.hash))
            if v.violation:
                kind = v.violation[0]
                if kind in kinds:
                    st.known[kind] = st.known.get(kind, 0) + 1
                elif survey:
                    st.tags["SURVEY " + kind] = st.tags.get("SURVEY " + kind, 0) + 1
                    if kind not in st.survey: st.survey[kind] = i
                else:
                    again = execute(p, sc)
                    if again.violation and again.violation[0] == kind:
                        found = {"seed": i, "scenario": sc, "violation": v.violation}
                    else:
                        st.unrep.append(f"seed {i}: {v.violation}")
                    break
        for sc, h in recheck:
            st.n["rechecked"] += 1
            if execute(p, sc).hash != h: st.n["nondet"] += 1
        st.n["seeds"] += 1
        if found: break
        i += nw
    return st, found

def check(id, kw):
    import pickle, gc, mmap
    load(kw)
    p = props.PROPS[id]
    t0 = REAL_CLOCK()
    tier, base = kw.get("tier", "quick"), int(kw.get("seed", "1"))
    nw = int(kw.get("threads", "8"))
    if tier == "thorough": maxs, wall = 1 << 60, float(kw.get("wall", "600"))
    else: maxs, wall = int(kw.get("seeds", p.quick_seeds)), float(kw.get("wall", "200"))
    survey = kw.get("survey") == "1"
    knowns = known(kw.get("known", "/verif/known-findings.json"), id)
    for f in knowns:
        v = execute(p, f["scenario"])
        if v.violation and v.violation[0] == f["signature"]: print(f"KNOWN-FINDING: property={id} {f['what']}")
        elif v.violation: print(f"note: pinned scenario of {f['signature']} now fails differently: {v.violation}")
        else: print(f"note: known finding {f['signature']} no longer fails")
    kinds = {f["signature"] for f in knowns}
    sys.stdout.flush()
    flag = mmap.mmap(-1, 8)
    gc.collect()
    gc.freeze()
    pipes = {}
    for k in range(nw):
        r, w = os.pipe.__wrapped_real__() if hasattr(os.pipe, "__wrapped_real__") else os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                out = worker(p, k, nw, base, maxs, wall, t0, survey, kinds, lambda: flag[0] != 0)
                if out[1]: flag[0] = 1
                data = pickle.dumps(out)
            except BaseException as e:
                import traceback
                flag[0] = 1
                data = pickle.dumps("".join(traceback.format_exception(e)))
            while data:
                n = os.write(w, data)
                data = data[n:]
            os.close(w)
            M._real["_exit"](0)
        os.close(w)
        pipes[r] = (pid, bytearray())
    st, founds, dead = Stats(), [], []
    open_ = set(pipes)
    while open_:
        for r in select.select(list(open_), [], [])[0]:
            d = os.read(r, 1 << 20)
            if d: pipes[r][1].extend(d)
            else:
                open_.discard(r)
                os.close(r)
    for pid, data in pipes.values():
        os.waitpid(pid, 0)
        try:
            o = pickle.loads(bytes(data))
        except Exception as e:
            dead.append(repr(e))
            continue
        if isinstance(o, str): dead.append(o)
        else:
            st.merge(o[0])
            if o[1]: founds.append(o[1])
    dead += st.errors
    search = REAL_CLOCK() - t0
    for k, i in sorted(st.survey.items(), key=lambda x: x[1]): print(f"survey: seed {i} {k}")
    code, details = 0, []
    if founds:
        f = min(founds, key=lambda f: f["seed"])
        kind, what = f["violation"]
        print(f"seed {f['seed']}: {kind}: {what}")
        sc, tries = minimise(p, f["scenario"], kind, 60)
        v = execute(p, sc)
        kind, what = v.violation or f["violation"]
        print(f"minimised ({tries} attempts): {kind}: {what}")
        d = kw.get("replays", "/verif/replays")
        os.makedirs(d, exist_ok=True)
        path = f"{d}/{id}-seed{f['seed']}.json"
        with open(path, "w") as h:
            json.dump({"property": id, "base_seed": base, "seed": f["seed"], "kind": kind, "what": what, "hash": v.hash, "scenario": sc, "original": f["scenario"]}, h, indent=1)
            h.write("\n")
        print(f"VIOLATION property={id} replay={path}")
        details, code = [{"kind": kind, "what": what, "seed": f["seed"], "replay": path}], 1
    wall_s = REAL_CLOCK() - t0
    faults = {k[6:]: x for k, x in sorted(st.tags.items()) if k.startswith("fault:")}
    ev = {"property": id, "tier": tier, "seed": base, "level": "exploration", "coverage": {
        "evaluations": st.n["evaluations"], "distinct_nontrivial": len(st.keys), "rule": p.rule, "samples": st.samples[:5],
        "seeds": st.n["seeds"], "simulated_runs": st.n["evaluations"],
        "seeds_per_hour": round(st.n["seeds"] / max(search, 1e-3) * 3600), "simulated_runs_per_hour": round(st.n["evaluations"] / max(search, 1e-3) * 3600),
        "simulated_seconds": st.n["sim_ns"] / 1e9, "scheduler_steps": st.n["steps"], "context_switches": st.n["switches"],
        "simulated_processes": st.n["procs"], "distinct_event_histories": len(st.hist), "nontrivial_runs": st.n["nontrivial"],
        "faults_injected_total": sum(faults.values()), "faults_injected": faults,
        "outcomes": {k: x for k, x in sorted(st.tags.items()) if not k.startswith("fault:")},
        "determinism_rechecks": st.n["rechecked"], "determinism_mismatches": st.n["nondet"], "unreproducible": st.unrep,
        "known_finding_hits": st.known, "real_components": p.real, "stubbed_components": p.stubbed},
        "assumptions": p.assumptions, "wall_s": wall_s, "violations": code, "violation_details": details}
    if kw.get("out"):
        with open(kw["out"], "w") as h:
            json.dump(ev, h, indent=1)
            h.write("\n")
    print(f"{id} {tier}: {st.n['seeds']} seeds, {st.n['evaluations']} runs, {len(st.keys)} distinct nontrivial, {sum(faults.values())} faults injected, {st.n['rechecked']} rechecked, {st.n['nondet']} nondeterministic, {wall_s:.1f}s")
    if survey or kw.get("verbose") == "1":
        for k, x in sorted(st.tags.items()): print(f"  {x:>8} {k}")
    if st.unrep: print("unreproducible (not reported):", st.unrep)
    if dead:
        print("worker failed:", "\n".join(dead), file=sys.stderr)
        code = code or 2
    if code == 0 and not st.keys:
        print("nothing was explored", file=sys.stderr)
        code = 2
    return code

def main():
    pos, kw = args_of(sys.argv[1:])
    if pos[:1] == ["check"]: return check(pos[1], kw)
    if pos[:1] == ["seed"]:
        load(kw)
        p = props.PROPS[pos[1]]
        for k, sc in enumerate(p.scenarios(random.Random(mix(int(kw.get("seed", "1")), int(pos[2]))))):
            if kw.get("only", str(k)) != str(k):
                execute(p, sc)
                continue
            v = execute(p, sc, kw.get("trace") == "1")
            if kw.get("sc") == "1": print(json.dumps(sc, indent=1))
            for l in v.log: print(l)
            print(f"#{k} => {v.violation} hash={v.hash} tags={v.tags}")
        return 0
    if pos[:1] == ["replay"]:
        load(kw)
        with open(pos[1]) as h: j = json.load(h)
        p = props.PROPS[j["property"]]
        v = execute(p, j["scenario"], True)
        for l in v.log: print(l)
        print(f"event hash {v.hash} (recorded {j['hash']})")
        if v.violation:
            print(f"{v.violation[0]}: {v.violation[1]}")
            print(f"VIOLATION property={p.id} replay={pos[1]}")
            return 1
        print("no violation")
        return 0
    print(__doc__)
    return 2

if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    M._real["_exit"](code)
