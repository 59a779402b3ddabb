#!/usr/bin/env python3
"""Decide one property:  check.py <ID>
   compile drivers against /repo -> record traces -> TLC (exhaustive model check + trace validation)."""
import concurrent.futures as cf, glob, json, os, re, resource, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from table import TABLE
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()

class Infra(Exception): pass

def log(*a): print("[%6.1fs]" % (time.time() - T0), *a, flush=True)

def tlc(bdir, name, module, cfg, env=None, workers=1, heap="2g", timeout=840, extra=()):
    meta = os.path.join(bdir, "tlc_" + name); shutil.rmtree(meta, ignore_errors=True); os.makedirs(meta)
    e = dict(os.environ); e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
           "-config", cfg, *extra, module]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), -1
    with open(os.path.join(bdir, "tlc_%s.out" % name), "w") as f: f.write(out)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    mi = re.findall(r"Finished computing initial states: (\d+)", out)
    ini = int(mi[-1]) if mi else 0
    ok = rc == 0 and "Model checking completed. No error has been found." in out
    if not ok and (rc == -1 or "OutOfMemoryError" in out or "StackOverflow" in out or "Java heap space" in out or rc > 128 or rc < 0
                   or "Parsing or semantic analysis failed" in out or "Could not parse" in out):
        raise Infra("TLC %s failed (rc %s):\n%s" % (name, rc, out[-3000:]))
    return dict(ok=ok, rc=rc, out=out, gen=gen, distinct=dist, init=ini, wall=time.time() - t)

def compile_driver(bdir, d):
    exe = os.path.join(bdir, d["name"])
    cxx = d.get("cxx", "g++")
    cmd = [cxx, "-std=c++20", "-w", d.get("opt", "-O0"), "-I", os.path.join(VERIF, "drivers"), "-I", os.path.join(REPO, "include"),
           *d.get("flags", []), os.path.join(VERIF, "drivers", d["src"]), "-o", exe]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        # an error that the compiler finds in the code (not a compiler that died): documented calls are no longer accepted
        if p.returncode == 1 and re.search(r"\berror: |undefined reference", p.stdout) and not re.search(r"Killed|internal compiler error|No space left|cannot execute|out of memory|memory exhausted", p.stdout):
            return CompileBreak(" ".join(cmd), p.stdout)
        raise Infra("compile failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return exe
class CompileBreak:
    def __init__(self, cmd, txt): self.cmd, self.txt = cmd, txt

def run_driver(bdir, d, exe, seed, tier):
    out = os.path.join(bdir, d["name"] + ".ndjson")
    asan = any("sanitize=address" in f for f in d.get("flags", []))
    def lim():
        if not asan: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "abort_on_error=0:detect_leaks=%d:allocator_may_return_null=0:max_allocation_size_mb=4000:detect_stack_use_after_return=0" % (1 if d.get("leaks") else 0)
    env["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=0"
    for attempt in range(2):
        try:
            p = subprocess.run([exe, "--out", out, "--seed", str(seed), "--tier", tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", env=env, preexec_fn=lim, timeout=600, cwd=bdir)
            rc, txt = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, txt = -99, "driver timeout"
        if rc == 0 or rc == 96: return out, rc, txt
    # no crash record although it did not end well: the code under test ended the process in some other way
    if rc == -9: raise Infra("driver %s was killed" % d["name"])
    with open(out, "a") as f:
        f.write('\n{"k":"crash","what":"exit %d","rep":"","input":{}}\n' % rc)
    return out, rc, txt

def shard(paths, n, bdir, kfkeys, mod):
    lines, kf, crashes = [], [], []
    for p in paths:
        with open(p, errors="replace") as f:
            for l in f:
                l = l.strip()
                if not l: continue
                if l.startswith('{"k":"crash"'): crashes.append(l); continue
                if '"kf":"' in l:
                    m = re.search(r'"kf":"([^"]*)"', l)
                    if m and m.group(1) in kfkeys: kf.append((m.group(1), l)); continue
                lines.append(l)
    good = []
    for l in lines:
        if not l.endswith("}"):      # torn line (crash inside a write): the crash record follows
            continue
        good.append(l)
    order = sorted(range(len(good)), key=lambda i: -len(good[i]))
    if not good: return [], [], kf, crashes
    n = max(1, min(n, len(good)))
    bins = [[0, []] for _ in range(n)]
    import heapq
    h = [(0, i) for i in range(n)]
    for i in order:
        s, b = heapq.heappop(h)
        bins[b][1].append(i); heapq.heappush(h, (s + len(good[i]) + 50, b))
    files = []
    for b in range(n):
        bins[b][1].sort()
        fn = os.path.join(bdir, "shard_%s_%d.ndjson" % (mod, b))
        with open(fn, "w") as f:
            for i in bins[b][1]: f.write(good[i] + "\n")
        files.append((fn, [good[i] for i in bins[b][1]]))
    return files, good, kf, crashes

def last_state(out):
    ep = re.findall(r"/\\ ep = (\d+)", out); i = re.findall(r"/\\ i = (\d+)", out)
    return (int(ep[-1]) if ep else 0, int(i[-1]) if i else 0)

def validate(bdir, tag, trace_mod, fn, lines, heap):
    """returns None if every episode is accepted, else (episode line, event index, tlc output)"""
    r = tlc(bdir, tag, trace_mod, trace_mod + ".cfg", env={"TRACE": fn}, heap=heap)
    if r["ok"]:
        if r["init"] != len(lines): raise Infra("TLC read %d of %d episodes (%s)" % (r["init"], len(lines), tag))
        return None, r
    ep, i = last_state(r["out"])
    if not (1 <= ep <= len(lines)):
        # TLC stopped before naming a state: bisect by episode
        if len(lines) == 1: return (lines[0], 0, r["out"]), r
        h = len(lines) // 2
        for part in (lines[:h], lines[h:]):
            pf = fn + ".part"
            with open(pf, "w") as f: f.write("\n".join(part) + "\n")
            x, _ = validate(bdir, tag + "p", trace_mod, pf, part, heap)
            if x: return x, r
        raise Infra("TLC failed on a shard but on neither half:\n" + r["out"][-3000:])
    return (lines[ep - 1], i, r["out"]), r

def main():
    pid = sys.argv[1]
    conf = TABLE[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    bdir = os.path.join(VERIF, "build", pid)
    shutil.rmtree(bdir, ignore_errors=True); os.makedirs(bdir)
    kfs = []
    kfp = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(kfp):
        kfs = [k for k in json.load(open(kfp))["findings"] if k["property"] == pid and k["status"] == "known"]
    kfkeys = {k["key"]: k for k in kfs}
    violations, reports, mc = [], [], []
    ex = cf.ThreadPoolExecutor(8)
    def mcjob(m):
        cfg = m.get("cfg_thorough", m["cfg"]) if tier == "thorough" else m["cfg"]
        return m, tlc(bdir, "mc_" + os.path.basename(cfg).replace(".cfg", ""), m["module"], cfg, workers=m.get("workers", 2), heap="6g" if tier == "thorough" else "3g",
                      timeout=5400 if tier == "thorough" else 600)
    def djob(d):
        exe = compile_driver(bdir, d)
        t = time.time()
        if isinstance(exe, CompileBreak):
            out = os.path.join(bdir, d["name"] + ".ndjson")
            first = [x for x in exe.txt.splitlines() if re.search(r"\berror: |undefined reference", x)][:3]
            with open(out, "w") as f: f.write(json.dumps(dict(k="crash", what="the calls of this check do not compile: " + " | ".join(first), rep="", input=dict(command=exe.cmd)), separators=(",", ":")) + "\n")
            return d, out, 1, exe.txt, time.time() - t
        return (d,) + run_driver(bdir, d, exe, seed, tier) + (time.time() - t,)
    drivers = conf["drivers"]
    dfut = [ex.submit(djob, d) for d in drivers]
    mfut = [ex.submit(mcjob, m) for m in conf.get("mc", []) if not (m.get("thorough_only") and tier != "thorough")]
    outs = {}
    for f in dfut:
        d, out, rc, txt, w = f.result(); outs.setdefault(d.get("trace", conf["trace"]), []).append(out)
        log("driver", d["name"], "rc", rc, txt.strip().splitlines()[-1:] or "", "%.1fs" % w)
        if rc not in (0,): log(txt[-1500:])
    files, good, kf, crashes = [], [], [], []
    tot = sum(os.path.getsize(o) for l in outs.values() for o in l) or 1
    for mod, l in sorted(outs.items()):
        size = sum(os.path.getsize(o) for o in l)
        nsh = max(1, round(conf.get("shards", 8) * size / tot))
        a, b, c, d = shard(l, nsh, bdir, kfkeys, mod)
        files += [(mod,) + x for x in a]; good += b; kf += [(mod,) + x for x in c]; crashes += d
    # a crash, failed assertion, sanitizer report, uncaught exception or hang of the real code: no action of any
    # specification accepts such an episode
    for l in crashes: violations.append((l, 0, "Error: the real code crashed or hung"))
    if not good and not crashes: raise Infra("no episodes")
    log("episodes", len(good), "known-finding episodes", len(kf))
    heap = "3g"
    tf = [ex.submit(validate, bdir, "trace%d" % b, mod, fn, lines, heap) for b, (mod, fn, lines) in enumerate(files)]
    tdist = tgen = 0
    for f in tf:
        bad, r = f.result()
        tdist += r["distinct"]; tgen += r["gen"] - r["init"]
        if bad: violations.append(bad)
    log("traces validated: states", tdist, "rejected shards", len(violations))
    mdist = mgen = 0
    for f in mfut:
        m, r = f.result()
        log("model check", m["cfg"], "ok" if r["ok"] else "FAILED", r["distinct"], "states %.1fs" % r["wall"])
        if not r["ok"]: raise Infra("the specification %s fails its own model check:\n%s" % (m["module"], r["out"][-3000:]))
        mdist += r["distinct"]; mgen += r["gen"] - r["init"]
        mc.append({"module": m["module"], "cfg": m["cfg"], "initial_states": r["init"], "distinct_states": r["distinct"]})
    # known findings: the listed input must still be the failing one
    for key in sorted({k for _, k, _ in kf}):
        ls = [l for _, k, l in kf if k == key]
        mod = [m for m, k, _ in kf if k == key][0]
        fn = os.path.join(bdir, "kf_%s.ndjson" % key)
        with open(fn, "w") as f: f.write("\n".join(ls) + "\n")
        bad, r = validate(bdir, "kf_" + key, mod, fn, ls, heap)
        if bad: print("KNOWN-FINDING: property=%s %s" % (pid, kfkeys[key]["what"]), flush=True)
    reps, kinds = {}, {}
    for l in good:
        m = re.search(r'"rep":"([^"]*)"', l); reps[m.group(1) if m else ""] = reps.get(m.group(1) if m else "", 0) + 1
        m = re.search(r'"k":"([^"]*)"', l); kinds[m.group(1) if m else ""] = kinds.get(m.group(1) if m else "", 0) + 1
    small = [l for l in good if len(l) < 900] or good
    samples = []
    for l in ([small[int(k * (len(small) - 1) / 2)] for k in range(3)] if not violations else []):
        x = json.loads(l)
        while len(json.dumps(x)) > 4000 and len(x.get("ev", [])) > 1:  # an excerpt of a long history
            x["events_of_the_whole_trace"] = x.get("events_of_the_whole_trace", len(x["ev"])); x["ev"] = x["ev"][:len(x["ev"]) // 2]
        samples.append(x if len(json.dumps(x)) < 8000 else l[:2000])
    nev = sum(l.count("[\"") for l in good)
    ev = dict(property=pid, tier=tier, seed=seed, level=conf["level"],
              coverage=dict(states=mdist + tdist, transitions=mgen + tgen,
                            traces_validated_against_impl=len(good) if not violations else 0,
                            events_in_traces=nev,
                            model_check_runs=mc, states_of_model_checks=mdist, states_of_trace_validation=tdist,
                            traces_by_representation=reps, traces_by_kind=kinds,
                            distinct_nontrivial=sum(1 for l in set(good) if len(l) > conf.get("trivial_len", 160)),
                            rule=conf["rule"], samples=samples or [l[:2000] for l in good[:1]]),
              assumptions=conf.get("assumptions", []), wall_s=round(time.time() - T0, 1), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f)
    if violations:
        rdir = os.path.join(VERIF, "build", "replay"); os.makedirs(rdir, exist_ok=True)
        for k, (line, i, out) in enumerate(violations[:3]):
            rp = os.path.join(rdir, "%s-%d.ndjson" % (pid, k))
            with open(rp, "w") as f: f.write(line + "\n")
            log("rejected at event index %d: %s" % (i, line[:1500]))
            try:
                evs = json.loads(line).get("ev", [])
                if 1 <= i <= len(evs): log("event not allowed by the specification:", str(evs[i - 1])[:2000], "after", str(evs[max(0, i - 6):i - 1])[-2000:])
            except Exception: pass
            err = [x for x in out.splitlines() if x.startswith("Error:")]
            log("TLC:", " ".join(err)[:400])
            print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
            if os.environ.get("VERIF_FIRST"): break
        shutil.rmtree(bdir, ignore_errors=True) if not os.environ.get("VERIF_KEEP") else None
        return 1
    if not os.environ.get("VERIF_KEEP"): shutil.rmtree(bdir, ignore_errors=True)
    log("held on everything explored")
    return 0

if __name__ == "__main__":
    try: sys.exit(main())
    except Infra as x:
        print("CHECK ERROR:", x); sys.exit(2)
