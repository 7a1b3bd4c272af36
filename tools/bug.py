#!/usr/bin/env python3
"""Author's tool for planted changes; no check uses it.
  bug.py make SPEC.py     write seeded/<id>/ from a spec (edits, demo, meta)
  bug.py try ID...        apply, build, test, demo, run the check, undo
  bug.py clean            run all demos on the unchanged build
"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
K = f"{V}/tools/bugkit"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **kw)

def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        d = f"{V}/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        assert sh(f"git -C {R} diff --quiet").returncode == 0, "repo not clean"
        try:
            for f, old, new in b["edits"]:
                p = f"{R}/{f}"
                s = open(p).read()
                assert s.count(old) >= 1, (b["id"], f, "not found", old)
                assert s.count(old) == 1, (b["id"], f, "ambiguous", s.count(old))
                open(p, "w").write(s.replace(old, new))
            open(f"{d}/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
        finally:
            sh(f"git -C {R} checkout -- .")
        open(f"{d}/demo.cpp", "w").write(b["demo"].lstrip("\n"))
        for f in ("demo.sh", "util.h"):
            shutil.copy(f"{K}/{f}", d)
        if "demo_sh" in b:
            open(f"{d}/demo.sh", "w").write(b["demo_sh"])
            if "demo" not in b or not b["demo"]: os.remove(f"{d}/demo.cpp"); os.remove(f"{d}/util.h")
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(f"{d}/meta.json", "w"), indent=1)
        print("made", b["id"])

def demo(i):
    r = sh(f"bash {V}/seeded/{i}/demo.sh", cwd=R)
    return r.returncode, (r.stdout + r.stderr)[-600:]

def trybug(i):
    d = f"{V}/seeded/{i}"
    prop = json.load(open(f"{d}/meta.json"))["property"]
    assert sh(f"git -C {R} diff --quiet").returncode == 0, "repo not clean"
    try:
        assert sh(f"git -C {R} apply {d}/patch.diff").returncode == 0, "apply"
        t = time.time()
        b = sh("bash /opt/vp/build.sh")
        tb = time.time() - t
        if b.returncode: print(i, "BUILD FAILED", (b.stdout + b.stderr)[-1500:]); return
        t = time.time()
        r = sh("bash /opt/vp/test.sh /tmp/bugtest.json")
        tt = time.time() - t
        tests = r.stdout.strip().splitlines()[-1:]
        rc, out = demo(i)
        t = time.time()
        c = sh(f"python3 check.py {prop}", cwd=V)
        tc = time.time() - t
        v = [l for l in c.stdout.splitlines() if "VIOLATION" in l]
        print(f"{i}: build {tb:.0f}s tests {tests} demo rc={rc} check rc={c.returncode} {tc:.0f}s {v[:2]}", flush=True)
        if rc in (0, 97, 98, 99): print("   DEMO:", out)
        if c.returncode != 1: print("   CHECK:", (c.stdout + c.stderr)[-1500:])
    finally:
        sh(f"git -C {R} checkout -- .")

if __name__ == "__main__":
    if sys.argv[1] == "make":
        for s in sys.argv[2:]: make(s)
    elif sys.argv[1] == "try":
        for i in sys.argv[2:]: trybug(i)
        sh("bash /opt/vp/build.sh")
    elif sys.argv[1] == "clean":
        for i in sys.argv[2:] or sorted(os.listdir(f"{V}/seeded")):
            rc, out = demo(i)
            print(i, "unchanged demo rc", rc, "" if rc == 0 else out, flush=True)
