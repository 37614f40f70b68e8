#!/usr/bin/env python3
"""Runs the check of one property.

    check.py C01 [quick|thorough]     explore, gate, minimise, report, evidence
    check.py --replay FILE            replay one recorded plan
    check.py --build [C01 ...]        only build

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line:
it is broken. Any other exit is an error of the check.
"""
import concurrent.futures, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.environ.get("SIM_BUILD", os.path.join(V, "build"))
sys.path.insert(0, V)
from props import PROPS   # noqa: E402

RT_FLAGS = "-std=c++14 -O2 -g1 -w -fno-builtin -fno-pie".split()
H_FLAGS = ("-std=c++14 -O1 -g1 -w -fno-inline -fno-pie -fopenmp -fsanitize=thread "
           "-fsanitize=bounds -fsanitize-coverage=trace-pc -D_GLIBCXX_ASSERTIONS").split()
# stack and global red zones instead of race detection (see sim/rt.cpp)
ZONE_FLAGS = ("-fsanitize=kernel-address -fasan-shadow-offset=0x7fff8000 --param asan-stack=1 --param asan-globals=1 "
              "--param asan-instrumentation-with-call-threshold=0 -fsanitize-address-use-after-scope -DSIM_ZONES -O0").split()   # -O0: every variable lives in (dirty) memory
L_FLAGS = ["-no-pie", "-pthread"]
L_END = ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp", "-ldl"]
NCPU = min(8, os.cpu_count() or 8)


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


# ---------------------------------------------------------------- build
def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode()); h.update(open(root, "rb").read()); continue
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def compile_one(job):
    src, obj, flags = job
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        return "%s:\n%s" % (src, r.stderr[:6000])
    os.replace(tmp, obj)
    return None


def build(prop):
    """Builds every variant of a property's harness; returns {variant: binary}."""
    cfg = PROPS[prop]
    sim_h = tree_hash([os.path.join(V, "sim")])
    lib_h = tree_hash([SRC])
    har_hdr = hashlib.sha256()
    for f in sorted(os.listdir(os.path.join(V, "harness"))):
        if f.endswith(".h"):
            har_hdr.update(open(os.path.join(V, "harness", f), "rb").read())
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    jobs, bins = [], {}
    rt = []
    for f in ("common.cpp", "omp.cpp", "rt.cpp"):
        k = hashlib.sha256((sim_h + " ".join(RT_FLAGS)).encode()).hexdigest()[:16]
        o = os.path.join(BUILD, "obj", f + "." + k + ".o")
        jobs.append((os.path.join(V, "sim", f), o, RT_FLAGS)); rt.append(o)
    for var, v in cfg["variants"].items():
        objs = []
        for s in v.get("sources", cfg["sources"]):
            fl = [f for f in H_FLAGS if not (v.get("zones") and f == "-fsanitize=thread")] + (ZONE_FLAGS if v.get("zones") else [])
            fl += ["-I" + SRC, "-I" + os.path.join(V, "sim"), "-I" + os.path.join(V, "harness")] + v.get("defines", [])
            body = open(os.path.join(V, "harness", s), "rb").read()
            k = hashlib.sha256(sim_h.encode() + lib_h.encode() + har_hdr.digest() + body + " ".join(fl).encode()).hexdigest()[:20]
            o = os.path.join(BUILD, "obj", s + "." + k + ".o")
            if (os.path.join(V, "harness", s), o, fl) not in jobs:
                jobs.append((os.path.join(V, "harness", s), o, fl))
            objs.append(o)
        bins[var] = objs
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(compile_one, jobs) if e]
    if errs:
        die("build failed\n" + "\n".join(errs))
    out = {}
    for var, objs in bins.items():
        k = hashlib.sha256("".join(objs + rt).encode()).hexdigest()[:16]
        b = os.path.join(BUILD, "%s-%s-%s" % (prop, var, k))
        if not os.path.exists(b):
            for old in os.listdir(BUILD):
                if old.startswith("%s-%s-" % (prop, var)):
                    os.unlink(os.path.join(BUILD, old))
            r = subprocess.run(["g++"] + L_FLAGS + ["-o", b + ".tmp"] + objs + rt + L_END, capture_output=True, text=True)
            if r.returncode:
                die("link failed\n" + r.stderr[:4000])
            os.replace(b + ".tmp", b)
        out[var] = b
    # keep the object cache small
    ob = os.path.join(BUILD, "obj")
    fs = sorted((os.path.join(ob, f) for f in os.listdir(ob)), key=os.path.getmtime)
    total = sum(os.path.getsize(f) for f in fs)
    keep = set(o for objs in bins.values() for o in objs) | set(rt)
    for f in fs:
        if total < 1500 << 20:
            break
        if f not in keep:
            total -= os.path.getsize(f); os.unlink(f)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return out


# ---------------------------------------------------------------- runs
def replay(binary, text, wall=120):
    with tempfile.NamedTemporaryFile("w", suffix=".plan", delete=False) as f:
        f.write(text); name = f.name
    try:
        r = subprocess.run([binary, "replay", name], capture_output=True, text=True, timeout=wall)
        return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception as e:     # noqa: BLE001
        return {"violated": False, "error": True, "cls": "", "context": "", "detail": "replay failed: %r" % (e,), "hash": ""}
    finally:
        os.unlink(name)


def explore(binary, seed, count, tier, wall, tmp, tag, workers):
    procs = []
    for w in range(workers):
        n = count // workers + (1 if w < count % workers else 0)
        if n == 0:
            continue
        out = os.path.join(tmp, "%s-%d.json" % (tag, w))
        procs.append((out, subprocess.Popen([binary, "explore", str(seed), str(w), str(workers), str(n), tier, out, str(wall)],
                                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    res = []
    for out, p in procs:
        try:
            _, err = p.communicate(timeout=wall + 240)
        except subprocess.TimeoutExpired:
            p.kill(); die("exploration worker hung")
        if p.returncode != 0 or not os.path.exists(out):
            die("exploration worker failed (%s): %s" % (p.returncode, err[-2000:]))
        d = json.load(open(out))
        d["viol"] = [json.loads(l) for l in open(out + ".viol")]
        d["hashes"] = dict(l.split() for l in open(out + ".hashes"))
        d["sched_f"], d["states_f"], d["cov_f"] = out + ".sched", out + ".states", out + ".cov"
        res.append(d)
    return res


KNOB = ("plan", "knob")


def same(o, ref):
    return o["violated"] and not o["error"] and o["cls"] == ref["cls"] and o["context"] == ref["context"]


def minimise(binary, text, ref, budget_s=60):
    t0 = time.time()
    lines = text.strip().split("\n")

    def bad(ls):
        return same(replay(binary, "\n".join(ls) + "\n"), ref)

    def many(cands):
        """first candidate that still fails (evaluated in parallel, chosen in order)"""
        with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
            for c, ok in zip(cands, ex.map(bad, cands)):
                if ok:
                    return c
        return None

    def left():
        return time.time() - t0 < budget_s
    # drop lines, in shrinking chunks
    changed = True
    while changed and left():
        changed = False
        idx = [i for i, l in enumerate(lines) if l.split()[0] not in KNOB]
        size = max(1, len(idx) // 2)
        while size >= 1 and left():
            idx = [i for i, l in enumerate(lines) if l.split()[0] not in KNOB]
            k = 0
            progress = False
            while k < len(idx) and left():
                batch = []
                kk = k
                while kk < len(idx) and len(batch) < NCPU:
                    drop = set(idx[kk:kk + size])
                    batch.append([l for i, l in enumerate(lines) if i not in drop]); kk += size
                got = many(batch)
                if got is not None:
                    lines = got; changed = progress = True
                    idx = [i for i, l in enumerate(lines) if l.split()[0] not in KNOB]
                else:
                    k = kk
            if size == 1 and not progress:
                break
            size = size // 2 if size > 1 else (1 if progress else 0)
    # shrink numbers
    keys = ("n", "len", "k", "rounds", "faults", "threads", "callers", "burst", "dim", "pos", "at")
    for i in range(len(lines)):
        for key in keys:
            m = re.search(r"(?<= )%s=(\d+)" % key, lines[i])
            while m and left():
                v = int(m.group(1))
                cands = []
                for nv in (0, 1, 2, v // 2, v - 1):
                    if 0 <= nv < v:
                        nl = lines[i][:m.start()] + "%s=%d" % (key, nv) + lines[i][m.end():]
                        cands.append(lines[:i] + [nl] + lines[i + 1:])
                got = many(cands) if cands else None
                if got is None:
                    break
                lines = got
                m = re.search(r"(?<= )%s=(\d+)" % key, lines[i])
    return "\n".join(lines) + "\n"


def symbolise(binary, detail):
    def sub(m):
        try:
            r = subprocess.run(["addr2line", "-s", "-e", binary, "-Cf", m.group(1)], capture_output=True, text=True, timeout=20)
            a = r.stdout.strip().split("\n")
            return "%s at %s" % (a[0][:120], a[1])
        except Exception:      # noqa: BLE001
            return m.group(0)
    return re.sub(r"pc=(0x[0-9a-f]+)", sub, detail)


# ---------------------------------------------------------------- findings
def load_findings():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def matches(f, prop, o):
    return (f["property"] == prop and re.fullmatch(f["class"], o["cls"]) is not None
            and re.fullmatch(f["context"], o["context"]) is not None
            and re.search(f.get("detail", ""), o["detail"]) is not None)


# ---------------------------------------------------------------- main
def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        text = open(sys.argv[2]).read()
        m = re.search(r"property=(\S+)", text); v = re.search(r"variant=(\S+)", text)
        b = build(m.group(1))[v.group(1)]
        o = replay(b, text)
        o["detail"] = symbolise(b, o["detail"])
        print(json.dumps(o, indent=1))
        sys.exit(2 if o["error"] else 1 if o["violated"] else 0)
    if len(sys.argv) >= 2 and sys.argv[1] == "--build":
        for p in sys.argv[2:] or sorted(PROPS):
            build(p)
        return
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = PROPS[prop]
    t0 = time.time()
    bins = build(prop)
    t_build = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="sim-%s-" % prop)
    rc = 0
    try:
        rc = run_check(prop, tier, seed, cfg, bins, t_build, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run_check(prop, tier, seed, cfg, bins, t_build, t0, tmp):
    findings = load_findings()
    known = [f for f in findings["known"] if f["property"] == prop]
    wall_total = cfg["wall"][tier]
    agg = {"runs": 0, "children": 0, "steps": 0, "ticks": 0, "switches": 0, "allocs": 0, "regions": 0, "planned": 0}
    counters, samples, infos, allviol, maxthr = {}, [], {}, [], 0
    scheds, states = set(), set()
    per_variant = {}
    det_checked = 0
    import array
    cov_total = 0
    for var, b in bins.items():
        share = cfg["variants"][var].get("share", 1.0 / len(bins))
        count = int(cfg["runs"][tier] * share)
        te = time.time()
        res = explore(b, seed, count, tier, wall_total * share, tmp, var, NCPU)
        per_variant[var] = {"runs": sum(r["runs"] for r in res), "wall_s": round(time.time() - te, 2)}
        cov = None
        for r in res:
            for k in agg:
                agg[k] += r[k]
            maxthr = max(maxthr, r["max_threads"])
            for k, v in r["counters"].items():
                counters[k] = counters.get(k, 0) + v
            samples += [s for s in r["samples"]]
            infos.update({(var + ":" + k if len(bins) > 1 else k): v for k, v in r.get("info", {}).items()})
            for f, st in (("sched_f", scheds), ("states_f", states)):
                a = array.array("Q"); a.frombytes(open(r[f], "rb").read()); st.update(a)
            c = int.from_bytes(open(r["cov_f"], "rb").read(), "little")
            cov = c if cov is None else cov | c
            allviol += [(var, v) for v in r["viol"]]
        cov_total += bin(cov).count("1") if cov else 0
        # determinism: the same indices again, in another process layout
        hashes = {}
        for r in res:
            hashes.update(r["hashes"])
        nd = min(cfg.get("det", {}).get(tier, 64), max(1, sum(r["runs"] for r in res)))
        again = explore(b, seed, nd, tier, 120, tmp, var + "-det", 3)
        for r in again:
            for i, h in r["hashes"].items():
                if i in hashes:
                    det_checked += 1
                    if hashes[i] != h:
                        die("nondeterminism: index %s of %s gave %s and %s" % (i, var, hashes[i], h))
    t_explore = time.time() - t0 - t_build

    errors = [(var, v) for var, v in allviol if v["outcome"]["error"]]
    viols = [(var, v) for var, v in allviol if not v["outcome"]["error"]]
    seen_known, todo = {}, {}
    for var, v in viols:
        f = next((f for f in known if matches(f, prop, v["outcome"])), None)
        if f is not None:
            seen_known[f["id"]] = seen_known.get(f["id"], 0) + 1
            continue
        todo.setdefault((var, v["outcome"]["cls"], v["outcome"]["context"]), []).append(v)

    # known findings: replay each recorded history
    for f in known:
        b = bins[f.get("variant", "default")]
        o = replay(b, open(os.path.join(V, f["replay"])).read())
        if o["violated"] and not o["error"] and matches(f, prop, o):
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]), flush=True)
        elif o["violated"] and not o["error"]:
            text = open(os.path.join(V, f["replay"])).read()
            todo.setdefault((f.get("variant", "default"), o["cls"], o["context"]), []).append({"idx": -1, "outcome": o, "plan": text})

    reported, ungated = [], []
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    for (var, cls, ctx), vs in sorted(todo.items())[:12]:
        b = bins[var]
        done = False
        for v in vs[:3]:
            ref = v["outcome"]
            a1, a2 = replay(b, v["plan"]), replay(b, v["plan"])
            if not (same(a1, ref) and same(a2, ref) and a1["hash"] == a2["hash"]):
                ungated.append((var, v, a1, a2)); continue
            text = minimise(b, v["plan"], ref, 60 if len(reported) < 2 else 15) if len(reported) < 4 else v["plan"]
            r1, r2 = replay(b, text), replay(b, text)
            if not (same(r1, ref) and same(r2, ref) and r1["hash"] == r2["hash"]):
                text = v["plan"]; r1, r2 = a1, a2
            if any(matches(f, prop, r1) for f in known):
                done = True; break
            name = os.path.join(V, "replays", "%s-%s.plan" % (prop, hashlib.sha256((var + cls + ctx).encode()).hexdigest()[:10]))
            with open(name, "w") as fh:
                fh.write("# property %s violated: %s\n# in: %s\n# %s\n# found at seed %d index %s; event hash %s\n# replay: python3 %s/check.py --replay %s\n" % (
                    prop, cls, ctx, symbolise(b, r1["detail"]).replace("\n", " "), seed, v["idx"], r1["hash"], V, name))
                fh.write(text)
            print("VIOLATION property=%s replay=%s" % (prop, name), flush=True)
            print("  class: %s\n  in: %s\n  %s\n  minimised to %d plan lines (from %d)" % (
                cls, ctx, symbolise(b, r1["detail"]), len(text.splitlines()), len(v["plan"].splitlines())), flush=True)
            reported.append(cls); done = True
            break

    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(states),
            "rule": cfg["rule"] + " A run counts as distinct when the hash of its complete event history (every memory access with its thread and code address, every fault, every result) is new, and as non-trivial when at least one context switch, fault or probe occurred in it.",
            "samples": [s.strip().split("\n") for s in samples[:3]],
            "simulated_runs": agg["runs"], "pristine_child_processes": agg["children"],
            "seeds_per_hour": int(agg["runs"] / max(t_explore, 0.01) * 3600),
            "simulated_steps": agg["steps"], "basic_block_ticks": agg["ticks"],
            "context_switches": agg["switches"], "allocations": agg["allocs"], "parallel_regions": agg["regions"],
            "max_threads_in_a_run": maxthr,
            "distinct_interleavings": len(scheds),
            "interleaving_measure": "hash of the sequence of (from thread, to thread, step of the switch) over all children of the run",
            "basic_blocks_covered": cov_total,
            "fault_and_probe_counts": counters,
            "determinism_reruns_equal": det_checked,
            "runs_planned": agg["planned"], "variants": per_variant,
            "known_findings_seen": seen_known,
            "components_real": cfg["real"], "components_stubbed": cfg["stub"],
        },
        "assumptions": cfg["assumptions"],
        "wall_s": round(wall, 2), "violations": len(reported),
    }
    if infos:
        ev["coverage"]["detail"] = infos
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: %d runs, %d distinct, %d interleavings, %d steps, build %.0fs, explore %.0fs, total %.0fs" % (
        prop, tier, agg["runs"], len(states), len(scheds), agg["steps"], t_build, t_explore, wall), flush=True)
    if reported:
        return 1
    if ungated:
        var, v, a1, a2 = ungated[0]
        die("a violation did not reproduce exactly: %s / %s / %s" % (v["outcome"], a1, a2))
    if errors:
        die("harness error in %s: %s" % (errors[0][0], json.dumps(errors[0][1])[:1500]))
    zero = [k for k in cfg.get("must_fire", []) if not counters.get(k)]
    if zero:
        die("probes never fired: %s" % zero)
    return 0


if __name__ == "__main__":
    main()
