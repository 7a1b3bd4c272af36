#!/usr/bin/env python3
"""Decide one property: check.py <property id> [quick|thorough]

Compiles the property's harness together with the current sources of /repo to
LLVM bitcode, explores it symbolically with symx (build/symx), replays every
counterexample against a natively compiled build of the same sources and writes
evidence/<id>.json.  Exit 0: held, 1: violation, 2: the check itself failed.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
CORES = int(os.environ.get("VERIF_CORES", "8"))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

CLANG = "clang++-18"
INC = [os.path.join(HERE, "shim"), os.path.join(HERE, "rt"), os.path.join(HERE, "harness"), os.path.join(REPO, "src"),
       REPO, os.path.join(HERE, "shim", "fallback"),
       os.path.join(REPO, "third_party/json"), os.path.join(REPO, "third_party/ctre/include"),
       os.path.join(REPO, "third_party/abseil-cpp"), os.path.join(REPO, "_build/vp_include")]
COMMON = ["-std=c++20", "-w", "-include", os.path.join(HERE, "rt/prelude.h"), "-DLOGLEVEL=0"] + ["-I" + d for d in INC]
BCFLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-DNDEBUG", "-gline-tables-only", "-c", "-emit-llvm"]
NATFLAGS = ["-O0", "-DNDEBUG", "-gline-tables-only", "-fsanitize=address", "-fno-omit-frame-pointer",
            "-ftrivial-auto-var-init=pattern", "-DSYMX_NATIVE=1"]


class CheckError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def ensure_setup():
    if not (os.path.exists(os.path.join(BUILD, "symx")) and os.path.exists(os.path.join(BUILD, "rt.bc"))):
        r = run(["bash", os.path.join(HERE, "setup.sh")])
        if r.returncode:
            raise CheckError("setup failed\n" + r.stdout[-4000:])


# synchronisation calls that a replay with threads hands to the recorded schedule
WRAPPED = ["sched_yield"] + ["pthread_" + f for f in (
    "mutex_lock", "mutex_trylock", "mutex_unlock", "rwlock_rdlock", "rwlock_wrlock", "rwlock_unlock",
    "cond_wait", "cond_signal", "cond_broadcast")]


class Job:
    """One harness translation unit: bitcode and native build."""

    def __init__(self, spec, scratch):
        self.spec, self.scratch = spec, scratch
        self.src = os.path.join(HERE, "harness", spec["src"])
        self.flags = spec.get("cflags", [])
        if spec.get("threads"):
            self.flags = self.flags + ["-I" + os.path.join(HERE, "shim/async")]
        if spec.get("regex"):
            self.flags = self.flags + ["-I" + os.path.join(HERE, "shim/regex")]
        self.extra = [os.path.join(HERE if e.startswith("harness/") else REPO, e) for e in spec.get("link_src", [])]
        self.native_lock = threading.Lock()
        self.native_path = None
        self.native_err = None

    def bitcode(self):
        bcs = []
        procs = []
        for i, s in enumerate([self.src] + self.extra):
            out = os.path.join(self.scratch, f"h{i}.bc")
            cmd = [CLANG] + COMMON + BCFLAGS + self.flags + [s, "-o", out]
            procs.append((s, out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, out, p in procs:
            o, _ = p.communicate()
            if p.returncode:
                raise CheckError(f"cannot compile {s}\n{o[-6000:]}")
            bcs.append(out)
        linked = os.path.join(self.scratch, "linked.bc")
        r = run(["llvm-link-18", "--suppress-warnings"] + bcs +
                ["--override=" + os.path.join(BUILD, "rt.bc"), "-o", linked])
        if r.returncode:
            raise CheckError("llvm-link failed\n" + r.stdout[-4000:])
        entries = sorted({e["entry"] for e in self.spec["entries"]})
        keep = ",".join(entries + ["memcpy", "memset", "memmove", "bcmp", "memcmp", "strlen"])
        self.bc = os.path.join(self.scratch, "prog.bc")
        r = run(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=" + keep,
                 linked, "-o", self.bc])
        if r.returncode:
            raise CheckError("opt failed\n" + r.stdout[-4000:])

    def native(self):
        with self.native_lock:
            if self.native_path or self.native_err:
                return self.native_path
            out = os.path.join(self.scratch, "native")
            objs, procs = [], []
            rt = ["rt/native.cpp"] + (["rt/native_threads.cpp"] if self.spec.get("threads") else [])
            for i, f in enumerate([self.src] + [os.path.join(HERE, r) for r in rt] + self.extra):
                o = os.path.join(self.scratch, f"n{i}.o")
                cmd = [CLANG] + COMMON + NATFLAGS + self.flags + ["-ffunction-sections", "-c", f, "-o", o]
                procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
                objs.append(o)
            for p in procs:
                o, _ = p.communicate()
                if p.returncode:
                    self.native_err = o[-4000:]
            if self.native_err:
                return None
            # Functions of files that are not part of the check: calling one
            # of them jumps to address 0 and counts as a broken replay.
            link = [CLANG, "-fsanitize=address", "-rdynamic", "-fuse-ld=lld", "-Wl,--gc-sections",
                    "-Wl,--no-demangle"] + objs
            if self.spec.get("threads"):
                link += ["-Wl,--wrap=" + f for f in WRAPPED]
            libs = ["-lpthread", "-ldl"] + self.spec.get("libs", [])
            r = run(link + ["-Wl,--warn-unresolved-symbols", "-Wl,--error-limit=0", "-o", out] + libs)
            missing = sorted(set(re.findall(r"undefined symbol: (\S+)", r.stdout)))
            if r.returncode == 0 and missing:
                stubs = os.path.join(self.scratch, "stubs.s")
                with open(stubs, "w") as h:
                    for m in missing:
                        data = m.startswith("_ZT")
                        h.write((".data\n.balign 8\n" if data else ".text\n") + f".globl {m}\n{m}:\n" +
                                (".zero 256\n" if data else "xorl %eax, %eax\njmp *%rax\n"))
                r = run(link + [stubs, "-o", out] + libs)
            if r.returncode:
                self.native_err = r.stdout[-4000:]
                return None
            self.native_path = out
            return out

    def replay(self, entry, params, inputs, tag, fill=190, timeout=60):
        """returns (verdict, output); verdict in ok, violated, diverged, broken"""
        nat = self.native()
        if not nat:
            return "broken", "native build failed\n" + (self.native_err or "")
        f = os.path.join(self.scratch, f"in.{tag}")
        with open(f, "w") as h:
            for n, v in inputs:
                h.write(f"{n} {v}\n")
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = ("exitcode=98:detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:"
                               f"max_malloc_fill_size=1048576:malloc_fill_byte={fill}")
        try:
            r = run([nat, entry, f] + [f"{k}={v}" for k, v in params.items()], env=env, timeout=timeout,
                    cwd=self.scratch)
        except subprocess.TimeoutExpired as e:
            return "violated", "replay did not terminate"
        out = r.stdout
        if r.returncode == 0:
            return "ok", out
        if r.returncode in (76, 77):
            return "diverged", out
        if r.returncode == 99:
            return "violated", out
        if r.returncode == 98 and re.search(r"pc 0x0{12}", out):
            return "broken", "call of an unresolved symbol in the native build\n" + out[-3000:]
        if r.returncode == 98 or r.returncode < 0:
            return "violated", out
        return "broken", f"exit {r.returncode}\n" + out[-3000:]


def parse_inputs(s):
    res = []
    for kv in s.split(","):
        if kv:
            k, v = kv.rsplit("=", 1)
            res.append((k, int(v)))
    return res


def run_entry(job, e, idx, tier, scratch, budget_scale=1.0):
    params = dict(e.get("params", {}))
    if tier == "thorough":
        params.update(e.get("thorough", {}))
    limit = e.get("time", 40)
    if tier == "thorough":
        limit = e.get("ttime", max(limit * 4, 120))
    w = e.get("workers", 1)
    out = os.path.join(scratch, f"log.{idx}")
    cmd = [os.path.join(BUILD, "symx"), "--entry=" + e["entry"], "--out=" + out, f"--workers={w}",
           f"--time={limit}", f"--samples={e.get('samples', 2)}", f"--preempt={params.get('symx_preempt', 2)}",
           f"--delays={params.get('symx_delays', 0)}",
           f"--solver-ms={e.get('solver_ms', 20000)}", f"--mem={24000 // CORES}"]
    cmd += [f"-p{k}={v}" for k, v in params.items()] + e.get("flags", []) + [job.bc]
    t0 = time.time()
    try:
        r = run(cmd, timeout=limit + 120)
    except subprocess.TimeoutExpired:
        raise CheckError(f"{e['entry']}: symx did not stop in time")
    res = dict(entry=e["entry"], params=params, stats={}, covers={}, unsup={}, ends={}, funcs={}, asserts={},
               viols=[], samples=[], wall=time.time() - t0, spec=e)
    if r.returncode:
        raise CheckError(f"{e['entry']}: symx exit {r.returncode}\n{r.stdout[-3000:]}")
    for i in range(w):
        done = False
        with open(f"{out}.{i}", errors="replace") as h:
            for line in h:
                p = line.rstrip("\n").split("\t")
                if p[0] == "stat":
                    v = float(p[2])
                    if p[1] in ("maxDepth", "z3max", "timeout", "memout"):
                        res["stats"][p[1]] = max(res["stats"].get(p[1], 0), v)
                    else:
                        res["stats"][p[1]] = res["stats"].get(p[1], 0) + v
                elif p[0] in ("cover", "unsup", "end", "assert"):
                    key = {"cover": "covers", "unsup": "unsup", "end": "ends", "assert": "asserts"}[p[0]]
                    res[key][p[1]] = res[key].get(p[1], 0) + int(p[2])
                elif p[0] == "func":
                    res["funcs"][(p[1], p[2])] = res["funcs"].get((p[1], p[2]), 0) + int(p[3])
                elif p[0] == "viol":
                    res["viols"].append(dict(kind=p[1], msg=p[2], where=p[3], inputs=parse_inputs(p[4])))
                elif p[0] == "sample":
                    res["samples"].append((parse_inputs(p[1]), [int(x) for x in p[2].split(",") if x]))
                elif p[0] == "done":
                    done = True
        if not done:
            raise CheckError(f"{e['entry']}: worker {i} left no result")
    return res


def load_known(prop):
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) entry=(\S+) match=/(.*)/ (.*)", line)
            if m and m.group(1) == prop:
                res.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return res


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = os.environ.get("VERIF_ENTRY")
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    spec = CHECKS[prop]
    t0 = time.time()
    ensure_setup()
    scratch = tempfile.mkdtemp(prefix=f"symx-{prop}-")
    try:
        return decide(prop, tier, only, seed, spec, scratch, t0)
    except CheckError as ex:
        print(f"CHECK-ERROR property={prop}: {ex}")
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("scratch kept:", scratch)


def decide(prop, tier, only, seed, spec, scratch, t0):
    job = Job(spec, scratch)
    # the native build runs in the background while the bitcode is explored
    nat = threading.Thread(target=job.native)
    nat.start()
    job.bitcode()
    tcomp = time.time() - t0
    todo = [(i, e) for i, e in enumerate(spec["entries"])
            if (tier == "thorough" or not e.get("thorough_only")) and (not only or e["entry"] == only or
                                                                        str(i) == only)]
    tokens = threading.Semaphore(0)
    free = [CORES]
    cv = threading.Condition()

    def go(ie):
        i, e = ie
        w = min(e.get("workers", 1), CORES)
        e = dict(e, workers=w)
        with cv:
            while free[0] < w:
                cv.wait()
            free[0] -= w
        try:
            return run_entry(job, e, i, tier, scratch)
        finally:
            with cv:
                free[0] += w
                cv.notify_all()

    results = []
    with concurrent.futures.ThreadPoolExecutor(max_workers=max(1, len(todo))) as ex:
        for r in ex.map(go, todo):
            results.append(r)
    tsym = time.time() - t0
    nat.join()
    # counterexamples
    known = load_known(prop)
    confirmed, unconfirmed, knownhits = [], [], []
    for i, r in enumerate(results):
        done = 0
        for k, v in enumerate(r["viols"][:40]):
            kf = [d for (en, rx, d) in known if en == r["entry"] and rx.search(v["msg"] + " | " + v["where"])]
            if not kf and done >= 3:
                continue
            verdict, out = "ok", ""
            for fill in (190, 0, 255, 1):
                verdict, out = job.replay(r["entry"], r["params"], v["inputs"], f"{i}.{k}.{fill}", fill)
                if verdict in ("violated", "broken"):
                    break
            v["verdict"], v["output"] = verdict, out[-4000:]
            if verdict == "violated":
                if kf:
                    knownhits.append((r, v, kf[0]))
                else:
                    confirmed.append((r, v))
                    done += 1
            else:
                unconfirmed.append((r, v))
    # agreement of the encoding with the compiled code on sampled paths
    validated = mismatched = 0
    mism = []
    for i, r in enumerate(results):
        if r["viols"]:
            continue
        for k, (inp, obs) in enumerate(r["samples"][:r["spec"].get("nvalidate", 3)]):
            verdict, out = job.replay(r["entry"], r["params"], inp, f"s{i}.{k}")
            got = [int(x.split()[1]) for x in out.splitlines() if x.startswith("OBS ")]
            if verdict == "ok" and got == obs:
                validated += 1
            else:
                mismatched += 1
                mism.append((r["entry"], verdict, inp[:40], obs[:20], got[:20], out[-1500:]))
    # evidence
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = max(tot.get(k, 0), v) if k in ("maxDepth", "z3max", "timeout", "memout") else tot.get(k, 0) + v
    funcs = {}
    for r in results:
        for (n, f), c in r["funcs"].items():
            if "/src/" in f and f.startswith(REPO + "/") or "third_party" in f:
                funcs[(n, f)] = funcs.get((n, f), 0) + c
    fl = sorted({(f[len(REPO) + 1:] + ": " + re.sub(r"\s+", " ", n)[:160]) for (n, f) in funcs if f.startswith(REPO)})
    entries = []
    incomplete = []
    for r in results:
        s = r["stats"]
        comp = not (s.get("unexplored") or s.get("unknown") or s.get("unsupported") or s.get("stepLimit") or
                    s.get("timeout"))
        if not comp and not r["viols"]:
            incomplete.append(r["entry"] + str(r["params"]))
        entries.append(dict(entry=r["entry"], bounds=r["spec"].get("bounds", ""), params=r["params"],
                            exhaustive_within_bounds=bool(comp), paths=int(s.get("paths", 0)),
                            queries=int(s.get("queries", 0)), solver_calls=int(s.get("z3calls", 0)),
                            solver_s=round(s.get("z3time", 0), 2), assertions=int(s.get("asserts", 0)),
                            wall_s=round(r["wall"], 2), covers=r["covers"],
                            unsupported=dict(list(r["unsup"].items())[:8]), unexplored=int(s.get("unexplored", 0)),
                            unknown=int(s.get("unknown", 0)), path_ends=r["ends"]))
    missing = []
    for r in results:
        for c in r["spec"].get("covers", ["end"]):
            if not r["covers"].get(c) and not r["viols"]:
                missing.append(f"{r['entry']}{r['params']}: cover '{c}' never reached")
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "model_checking"),
              coverage=dict(
                  rule="symbolic execution of the compiled sources; every assertion is decided by the SMT solver on "
                       "every feasible path within the stated bounds",
                  evaluations=int(tot.get("asserts", 0)), distinct_nontrivial=int(tot.get("paths", 0)),
                  states=int(tot.get("forks", 0) + len(results)), transitions=int(tot.get("steps", 0)),
                  traces_validated_against_impl=validated,
                  queries=int(tot.get("queries", 0)), solver_calls=int(tot.get("z3calls", 0)),
                  solver_seconds=round(tot.get("z3time", 0), 2), solver_max_s=round(tot.get("z3max", 0), 3),
                  exhaustive_within_bounds=not incomplete, incomplete_entries=incomplete,
                  functions_encoded=len(fl), functions=fl[:400], entries=entries,
                  samples=[dict(entry=r["entry"], inputs=s[0][:30], observed=s[1][:20]) for r in results
                           for s in r["samples"][:1]][:10],
                  outside_bounds=spec.get("outside", ""), compile_s=round(tcomp, 1), explore_s=round(tsym - tcomp, 1)),
              wall_s=round(time.time() - t0, 2), assumptions=spec.get("assumptions", []),
              violations=len(confirmed))
    if not only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
    for r in results:
        s = r["stats"]
        print(f"{r['entry']} {r['params']}: paths={int(s.get('paths', 0))} infeasible={int(s.get('infeasible', 0))} "
              f"queries={int(s.get('queries', 0))} solver={s.get('z3time', 0):.1f}s wall={r['wall']:.1f}s "
              f"{'incomplete ' if (r['entry'] + str(r['params'])) in incomplete else ''}"
              f"unexplored={int(s.get('unexplored', 0))} unknown={int(s.get('unknown', 0))} "
              f"covers={r['covers']} viol={len(r['viols'])}")
        for u, c in list(r["unsup"].items())[:5]:
            print(f"   unsupported x{c}: {u[:500]}")
    print(f"compile {tcomp:.1f}s explore {tsym - tcomp:.1f}s total {time.time() - t0:.1f}s validated {validated}")
    for d in sorted({k[2] for k in knownhits}):
        print(f"KNOWN-FINDING: property={prop} {d}")
    rc = 0
    if confirmed:
        rdir = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        for n, (r, v) in enumerate(confirmed):
            path = os.path.join(rdir, f"{prop}-{n}.json")
            with open(path, "w") as h:
                json.dump(dict(property=prop, entry=r["entry"], params=r["params"], kind=v["kind"], message=v["msg"],
                               where=v["where"], inputs=v["inputs"], native_output=v["output"]), h, indent=1)
            print(f"  {r['entry']} {r['params']}: {v['kind']}: {v['msg']} at {v['where'][:300]}")
            print(f"  inputs: {v['inputs'][:60]}")
            print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    for r, v in unconfirmed:
        print(f"UNCONFIRMED ({v['verdict']}) {r['entry']}: {v['kind']}: {v['msg']} at {v['where'][:400]}\n"
              f"   inputs {v['inputs'][:60]}\n   native: {v['output'][-1500:]}")
    if rc == 0 and unconfirmed:
        rc = 2
    for m in mism[:5]:
        print("ENCODING-MISMATCH", m)
    if rc == 0 and mism:
        rc = 2
    for m in missing:
        print("VACUOUS", m)
    if rc == 0 and missing:
        rc = 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
