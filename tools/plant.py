#!/usr/bin/env python3
"""plant.py ID... : confirm planted changes in a scratch copy and run the check of their property against it.
Scratch: /tmp/pl (copy of /repo's HEAD), /tmp/plb (check builds)."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PL, PB = "/tmp/pl", "/tmp/plb"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def setup():
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if sh("git -C %s rev-parse HEAD" % PL).stdout.strip() != head:
        sh("rm -rf /tmp/pl"); r = sh("git clone -q /repo " + PL); assert r.returncode == 0, r.stdout
        for s in ("build.sh", "test.sh"):
            t = open("/opt/vp/" + s).read().replace("/repo", PL); open("/tmp/pl_" + s, "w").write(t)
        ext = "/repo/_build/_deps"
        if os.path.isdir(ext): sh("mkdir -p %s/_build && cp -a %s %s/_build/" % (PL, ext, PL))
        sh("for d in $(git -C /repo config -f .gitmodules --get-regexp path 2>/dev/null | cut -d' ' -f2); do cp -a /repo/$d/. %s/$d/; done" % PL)
    sh("git -C %s checkout -q -- . && git -C %s clean -qfd -e _build" % (PL, PL))
    if not os.path.exists(PL + "/_build/build.ninja"):
        r = sh("bash /tmp/pl_build.sh"); assert r.returncode == 0, r.stdout[-2000:]
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def main():
    extra = [a for a in sys.argv[1:] if a.startswith("C") and a[1:].isdigit()]
    ids = [a for a in sys.argv[1:] if a not in extra] or sorted(os.listdir(V + "/seeded"))
    setup()
    for i in ids:
        d = os.path.join(V, "seeded", i); meta = json.load(open(d + "/meta.json")); out = []
        sh("git -C %s checkout -q -- ." % PL)
        r = sh("bash %s/demo.sh" % d, cwd=PL); out.append("demo clean %d%s" % (r.returncode, "" if r.returncode == 0 else " BAD " + r.stdout[-500:]))
        r = sh("git -C %s apply %s/patch.diff" % (PL, d))
        if r.returncode: print(i, "patch does not apply", r.stdout); continue
        r = sh("bash /tmp/pl_test.sh /tmp/pl_o.json"); o = json.load(open("/tmp/pl_o.json")); lost = sorted(base - set(o["passed"]))
        out.append("tests ok" if not lost and r.returncode in (0, 1) and o["passed"] else "TESTS LOST %s %s" % (lost[:5], r.stdout[-800:] if not o["passed"] else ""))
        r = sh("bash %s/demo.sh" % d, cwd=PL); out.append("demo planted %d%s" % (r.returncode, "" if r.returncode else " BAD"))
        for p in (extra or [meta["property"]]):
            t = time.time()
            r = sh("SIM_REPO=%s SIM_BUILD=%s VERIF_SEED=1 VERIF_TIER=quick python3 %s/check.py %s quick" % (PL, PB, V, p))
            v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "  in:" in l or "class" in l]
            out.append("%s rc=%d %.0fs %s" % (p, r.returncode, time.time() - t, " | ".join(v[:6]) if r.returncode == 1 else r.stdout[-300:]))
        sh("git -C %s checkout -q -- ." % PL)
        print(i, "::", "; ".join(out), flush=True)
main()
