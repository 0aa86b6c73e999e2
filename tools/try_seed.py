#!/usr/bin/env python3
"""Confirms planted bugs and runs the checks against them (development tool, not used by any check).

usage: try_seed.py [--no-check] [--checks C01,C02] ID...
Works on a scratch clone of /repo below /tmp/seedwork; /repo itself is never touched."""
import json, os, subprocess, sys, shutil
W = "/tmp/seedwork"
R = W + "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **kw)

def prepare():
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(R):
        subprocess.check_call(["git", "clone", "-q", "/repo", R])
    head = sh(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()
    subprocess.check_call(["git", "-C", R, "fetch", "-q"])
    subprocess.check_call(["git", "-C", R, "checkout", "-q", "-f", head])
    for n in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + n).read().replace("/repo", R).replace("/opt/vp/build.sh", W + "/build.sh")
        open(f"{W}/{n}", "w").write(s)

def tests():
    r = sh(["bash", W + "/test.sh", W + "/out.json"])
    out = json.load(open(W + "/out.json"))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(out["passed"])
    miss = [s for s in stable if s not in passed]
    if miss: open(W + "/test.log", "w").write(r.stdout + r.stderr)
    return miss

def demo(d):
    tmp = W + "/demo"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d, tmp)
    for f in ("patch.diff", "meta.json"): os.remove(f"{tmp}/{f}")
    r = sh(["bash", tmp + "/demo.sh"], cwd=R, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-1500:]

def main():
    args = sys.argv[1:]
    check = True; only = None
    if "--no-check" in args: args.remove("--no-check"); check = False
    if "--checks" in args:
        i = args.index("--checks"); only = args[i + 1].split(","); del args[i:i + 2]
    prepare()
    bad = 0
    for i in args or sorted(os.listdir(VERIF + "/seeded")):
        d = f"{VERIF}/seeded/{i}"
        meta = json.load(open(d + "/meta.json"))
        sh(["git", "-C", R, "checkout", "-q", "-f", "."])
        c0, o0 = demo(d)
        a = sh(["git", "-C", R, "apply", d + "/patch.diff"])
        if a.returncode: print(i, "PATCH FAILS", a.stderr); bad += 1; continue
        miss = tests()
        c1, o1 = demo(d)
        ok = c0 == 0 and c1 != 0 and not miss
        print(i, meta["property"], "valid" if ok else "INVALID", f"demo {c0}/{c1}", f"tests missing {len(miss)} {miss[:4]}", flush=True)
        if not ok:
            bad += 1; print("  clean:", o0, "\n  bug:", o1)
        elif check:
            for c in only or [meta["property"]]:
                r = sh([sys.executable, VERIF + "/check.py", c, "quick"], env=dict(os.environ, VERIF_REPO=R))
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                print("  ", c, "exit", r.returncode, v[:1] if v else "NOT CAUGHT" if r.returncode == 0 else r.stdout[-500:] + r.stderr[-500:], flush=True)
                if r.returncode != 1: bad += 1
        sh(["git", "-C", R, "checkout", "-q", "-f", "."])
    return bad
sys.exit(1 if main() else 0)
