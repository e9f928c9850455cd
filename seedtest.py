#!/usr/bin/env python3
"""Development tool: seedtest.py ID [--tests] [--demo] [--checks=C01,C02|auto] [--base=/repo] [--bugs=DIR]
validates a planted bug in scratch copies of the repository (never in /repo itself): the demo on a clean
and a patched copy, the stable tests on the patched copy, and checks (this directory's) against the patched copy."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
def opt(n, d=None):
    for a in sys.argv:
        if a.startswith("--%s=" % n): return a.split("=", 1)[1]
    return d
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def build(root):
    return sh("cmake -S %s/cpp -B %s/cpp/build -G Ninja && ninja -C %s/cpp/build" % (root, root, root))
def tests(root):
    t = open("/opt/vp/test.sh").read().replace("/repo", root)
    f = root + ".test.sh"; open(f, "w").write(t)
    sh("flock /tmp/seedtest.lock bash %s %s.json" % (f, root))   # the tests share /tmp/test_Enumerate
    o = json.load(open(root + ".json")); b = json.load(open("/opt/vp/BASELINE.json"))
    os.unlink(f); os.unlink(root + ".json")
    return sorted(set(b.get("passed", b.get("stable", []))) - set(o["passed"]))
def main():
    base, sid = opt("base", "/repo"), sys.argv[1]
    d = os.path.join(opt("bugs", HERE + "/seeded"), sid)
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="bug-", dir="/tmp")
    try:
        for state in ("clean", "patched"):
            root = tmp + "/" + state
            if state == "clean" and not ("--demo" in sys.argv or "--tests" in sys.argv): continue
            r = sh("git clone -q %s %s" % (base, root)); assert r.returncode == 0, r.stderr
            if state == "patched":
                r = sh("git -C %s apply %s/patch.diff" % (root, d)); assert r.returncode == 0, r.stderr
                r = sh("git -C %s diff --stat" % root); print(sid, r.stdout.strip().replace("\n", ";"))
            r = build(root); assert r.returncode == 0, r.stdout[-2000:]
            if "--demo" in sys.argv or "--tests" in sys.argv:
                t = tmp + "/x"; shutil.copytree(d, t, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
                r = sh("bash %s/demo.sh" % t, cwd=root, timeout=300); shutil.rmtree(t)
                ok = (r.returncode == 0) == (state == "clean")
                print(sid, state, "demo", "OK" if ok else "BAD", "rc", r.returncode, (r.stdout + r.stderr).strip()[-300:])
                s = sh("git -C %s status --short | grep -v cpp/build" % root).stdout
                if state == "clean" and s: print(sid, "demo dirties the tree:", s)
            if "--tests" in sys.argv and state == "patched": print(sid, "stable tests failing:", tests(root))
        cs = opt("checks")
        if cs == "auto": cs = meta["property"]
        for c in (cs.split(",") if cs else []):
            r = sh("BBSIM_REPO=%s/patched VERIF_SEED=1 VERIF_TIER=quick python3 sim/run.py %s" % (tmp, c), cwd=HERE)
            v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "KNOWN" in l]
            print(sid, c, "CAUGHT" if r.returncode == 1 and v else "MISSED rc %d" % r.returncode, " | ".join(v)[:400], r.stdout.strip()[-400:] if not v else "", r.stderr[-600:])
    finally: shutil.rmtree(tmp)
main()
