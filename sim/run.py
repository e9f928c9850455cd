#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--seed N] [--only SCENARIO] [--runs N] | --replay FILE"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.environ.get("VP_SIM_CHILD") != "1":
    env = dict(os.environ, VP_SIM_CHILD="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPATH=os.environ.get("BBSIM_REPO", "/repo") + "/Code", LANG="C.UTF-8", PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    os.execve(PY, [PY, "-X", "utf8"] + sys.argv, env)
sys.path.insert(0, HERE)
import argparse, importlib
import core, registry

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--only"); ap.add_argument("--runs", type=int); ap.add_argument("--base", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay: return core.replay(registry.get, a.replay)
    return core.run_check(registry.get(a.prop), a.tier if a.tier in ("quick", "thorough") else "quick",
                          a.seed, a.only, a.runs, a.base)

if __name__ == "__main__":
    try: rc = main()
    except core.HarnessError as e: print("harness error: %s" % e, file=sys.stderr); rc = 2
    finally:
        for f in core.CLEANUP: f()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)
