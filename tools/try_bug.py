#!/usr/bin/env python3
"""Try planted bugs in scratch copies: does it apply, build, pass the stable tests, does the demo tell, which checks catch it.

usage: try_bug.py [--own | --checks C01,C02 | --all-checks | --no-checks] [--skip-valid] id ...
"""
import json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/vpbug"
WORK = S + "/work"


def sh(cmd, cwd=None, env=None, timeout=1500):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, shell=isinstance(cmd, str), errors="replace")


def main():
    args = sys.argv[1:]
    own, checks, valid = True, [], True
    ids = []
    while args:
        a = args.pop(0)
        if a == "--own": own = True
        elif a == "--checks": own, checks = False, args.pop(0).split(",")
        elif a == "--all-checks": own, checks = False, ["C%02d" % i for i in range(1, 25)]
        elif a == "--no-checks": own, checks = False, []
        elif a == "--skip-valid": valid = False
        else: ids.append(a)
    os.makedirs(S, exist_ok=True)
    repo = S + "/repo"
    if not os.path.exists(repo):
        sh(["cp", "-a", "/repo", repo])
    for x in ("build", "test"):
        s = open(f"/opt/vp/{x}.sh").read().replace("cd /repo", "cd " + repo)
        open(f"{S}/{x}.sh", "w").write(s)
    base = json.load(open("/opt/vp/BASELINE.json"))
    for i in ids:
        d = f"{VERIF}/seeded/{i}"
        meta = json.load(open(d + "/meta.json"))
        sh(["git", "-C", repo, "checkout", "-q", "--", "."])
        msg = [i]
        demo = sh(["cp", "-a", d, f"{S}/demo"])
        try:
            if valid:
                r = sh(["bash", f"{S}/demo/demo.sh"], cwd=repo, timeout=300)
                msg.append("demo-clean=%d" % r.returncode)
                if r.returncode: print(r.stdout[-2000:], r.stderr[-2000:])
            r = sh(["git", "-C", repo, "apply", d + "/patch.diff"])
            if r.returncode:
                print(i, "DOES NOT APPLY", r.stderr); continue
            if valid:
                r = sh(["bash", S + "/build.sh"])
                msg.append("build=%d" % r.returncode)
                if r.returncode: print(r.stderr[-3000:])
                r = sh(["bash", S + "/test.sh", S + "/out.json"])
                out = json.load(open(S + "/out.json"))
                msg.append("tests=" + tests(base, out))
                r = sh(["bash", f"{S}/demo/demo.sh"], cwd=repo, timeout=300)
                msg.append("demo-bug=%d (%s)" % (r.returncode, r.stderr.strip().replace("\n", " ")[-200:]))
        finally:
            shutil.rmtree(f"{S}/demo", ignore_errors=True)
        for c in checks or ([meta["property"]] if own else []):
            t = time.time()
            env = dict(os.environ, VP_REPO=repo, VP_WORK=WORK)
            try:
                r = sh(["python3", VERIF + "/check.py", c], env=env, timeout=900)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                res = "CAUGHT" if r.returncode == 1 and v and f"property={c} " in v[0] + " " else "missed" if r.returncode == 0 else f"?? exit {r.returncode} {r.stdout[-500:]} {r.stderr[-1500:]}"
            except subprocess.TimeoutExpired:
                res = "?? timeout"
            if res == "CAUGHT" and own:
                rp = v[0].split("replay=")[1].split()[0]
                try: msg.append("replay: " + open(rp).read()[:300].replace("\n", " "))
                except Exception as e: msg.append(repr(e))
            msg.append(f"{c}={res} {time.time()-t:.0f}s")
        sh(["git", "-C", repo, "checkout", "-q", "--", "."])
        print(" | ".join(msg), flush=True)


def tests(base, out):
    stable = base.get("stable") or base.get("passed") or base.get("tests")
    passed = set(out.get("passed", []))
    bad = [t for t in stable if t not in passed]
    return "ok" if not bad else "FAIL " + ",".join(bad)


main()
