#!/usr/bin/env python3
"""Mutation campaign: python3 mutate.py CRATE NWORKERS [N] [SEED]
Small textual changes of /repo's sources in scratch copies; which of them do the checks miss?
Results: /tmp/mut/CRATE.jsonl (one line per mutant: file, line, old, new, result)."""
import sys, re, os, json, random, subprocess, shutil, threading, queue
CR = {"eager": ("amzn-smt-eager-arithmetic", ["E01", "E02", "E03", "E04"]),
      "strings": ("amzn-smt-string-transformer", ["T02", "T01", "T03", "T05", "T04", "T06"]),
      "updater": ("amzn-smt-string-fct-updater", ["U01", "U02"]),
      "prediction": ("amzn-smt-prediction", ["P01", "P02"])}
FIRST = {"subformula_parser.rs": ["T06"], "reconstruct_tools.rs": ["T05"], "mapping_tools.rs": ["T01", "T05", "T03", "T04", "T02"],
         "main.rs": None}
SUBS = [(r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r" < ", " <= "), (r" <= ", " < "),
        (r" > ", " >= "), (r" >= ", " > "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
        (r"\.max\(", ".min("), (r"\.min\(", ".max("), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"if !", "if "),
        (r"if (?!let)(?=[a-z(])", "if !"), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"\bis_empty\(\)", "len() == 1"),
        (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\|\| [^|]+=>", "=>"), (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""), (r"\?;", ".ok();"),
        (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"), (r"\+= ", "-= "), (r"(?<=[^=]) = !", " = "), (r"starts_with", "ends_with"),
        (r"ends_with", "starts_with"), (r"continue;", "break;"), (r"break;", "continue;"), (r"\.flush\(\)\?", ""), (r"\.union\(", ".intersection("),
        (r"\.\.=", ".."), (r"(?<=[a-z0-9)])\.\.(?=[a-z0-9(])", "..=")]
def gen(crate):
    d = "/repo/%s/src" % CR[crate][0]
    out = []
    for f in sorted(os.listdir(d)):
        if not f.endswith(".rs") or f == "lib.rs" and crate in ("updater", "strings"): continue
        intest = False
        for n, l in enumerate(open(d + "/" + f).read().split("\n")):
            s = l.strip()
            if s.startswith("#[cfg(test)]"): intest = True
            if intest or s.startswith(("//", "#", "use ", "println", "print!", "log::", "debug", "trace", "info", "eprintln", "warn", "pub use", "mod ", "///", "assert", "debug_assert")): continue
            code = l.split("//")[0]
            for a, b in SUBS:
                for m in re.finditer(a, code):
                    new = l[:m.start()] + m.expand(b) + l[m.end():]
                    if new != l: out.append((f, n, l, new))
            if re.match(r"^[a-z_.:]+[^=]*\(.*\);$", s) and not s.startswith(("let ", "return", "fn ", "pub ")):
                out.append((f, n, l, re.match(r"\s*", l).group(0) + ";"))
            if re.match(r"^[a-z_.\[\]]+ [|+&-]?= .*;$", s):
                out.append((f, n, l, re.match(r"\s*", l).group(0) + ";"))
            m = re.match(r"^(\s*)(\S.*) \| (\S.*)=> ", l)
            if m: out.append((f, n, l, l.replace(m.group(2) + " | ", "", 1)))
            m = re.match(r"^(\s*)\| ([A-Z]\S*.*)$", l)
            if m and "=>" not in l: out.append((f, n, l, ""))
    return out
def sh(cmd, t, **kw):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, **kw)
    try: o, _ = p.communicate(timeout=t); return p.returncode, o.decode(errors="replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait(); return 124, ""
ENV = ". /opt/vp/env.sh >/dev/null 2>&1; export CARGO_INCREMENTAL=1 CARGO_PROFILE_RELEASE_LTO=off CARGO_PROFILE_RELEASE_DEBUG=0 CARGO_PROFILE_RELEASE_OPT_LEVEL=1 CARGO_PROFILE_RELEASE_CODEGEN_UNITS=16;"
def worker(k, crate, q, outf, lock):
    pkg, props = CR[crate]
    w, t = "/tmp/mut/w%d" % k, "/tmp/mut/t%d" % k
    if not os.path.isdir(w):
        subprocess.check_call("mkdir -p %s && cd /repo && git ls-files -z '*.rs' '*.toml' '*.md' 'Cargo.lock' | xargs -0 cp --parents -t %s && cp -n /repo/Cargo.lock %s/ 2>/dev/null; true" % (w, w, w), shell=True)
    else:
        subprocess.check_call("cp /repo/%s/src/*.rs %s/%s/src/" % (pkg, w, pkg), shell=True)
    build = ENV + "cd %s; CARGO_TARGET_DIR=%s timeout 300 cargo build -p %s --offline --release --bins -q" % (w, t, pkg)
    sh(build, 400)
    while True:
        try: f, n, old, new = q.get_nowait()
        except queue.Empty: return
        p = "%s/%s/src/%s" % (w, pkg, f)
        ls = open("/repo/%s/src/%s" % (pkg, f)).read().split("\n")
        ls[n] = new
        open(p, "w").write("\n".join(ls))
        rc, o = sh(build, 400)
        res = None
        if rc: res = "nobuild"
        else:
            order = FIRST.get(f) or props
            for c in order:
                rc, o = sh("/tmp/t_dst/release/dst check %s --wall %s --threads 2 --seed 1 --bin %s/release --shim /tmp/shim.so --replays /tmp/mut/replays%d --known /verif/known-findings.json" % (c, os.environ.get("MWALL", "25"), t, k), 300)
                if rc == 1:
                    v = [x for x in o.split("\n") if "VIOLATION" in x or "violation" in x]
                    res = "caught " + c; break
                if rc not in (0, 1): res = "odd %s rc=%d %s" % (c, rc, o[-300:])
            if res is None:
                res = "survived"
                if crate == "eager":
                    rc, o = sh(ENV + "cd %s; CARGO_TARGET_DIR=%s timeout 600 cargo test -p %s --features varisat --offline" % (w, t, pkg), 700)
                    if rc: res = "tests"
        shutil.copy("/repo/%s/src/%s" % (pkg, f), p)
        with lock:
            outf.write(json.dumps({"file": f, "line": n + 1, "old": old.strip(), "new": new.strip(), "res": res}) + "\n"); outf.flush()
if __name__ == "__main__":
    crate, nw = sys.argv[1], int(sys.argv[2])
    ms = gen(crate)
    random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1).shuffle(ms)
    if len(sys.argv) > 3: ms = ms[:int(sys.argv[3])]
    print(len(ms), "mutants")
    if nw == 0: sys.exit()
    q = queue.Queue(); [q.put(m) for m in ms]
    lock = threading.Lock()
    with open("/tmp/mut/%s.jsonl" % crate, "a") as outf:
        th = [threading.Thread(target=worker, args=(k, crate, q, outf, lock)) for k in range(nw)]
        [x.start() for x in th]; [x.join() for x in th]
    print("done")
