#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough    decide one property (see DESIGN.md)
check.py --replay FILE               re-run one recorded counterexample against /repo
check.py --setup                     build the executor and its run-time library"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PSX_REPO", "/repo")
SRC = REPO + "/src"
ENG = HERE + "/engine"
JOBS = int(os.environ.get("PSX_JOBS", "8"))
DEFS = ["-DUSE_PTHREADS", "-DUSE_BOOST", "-DHDF_NO_NAMESPACE", "-DNO_STATIC_CAST", "-DOLD_HEADER_FILENAME"]
INC = ["-I" + SRC, "-I" + REPO, "-I" + REPO + "/loki/include", "-I" + HERE + "/h", "-isystem", "/usr/include/hdf5/serial"]
T0 = time.time()


def run(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf-8", "replace")


def engine_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(ENG + "/*.cpp") + glob.glob(ENG + "/*.h") + glob.glob(ENG + "/shadow/**/*", recursive=True) + [ENG + "/Makefile", ENG + "/bc.sh"]):
        if os.path.isfile(f) and not f.endswith("psx_native.cpp"):
            h.update(f[len(ENG):].encode() + open(f, "rb").read())
    return h.hexdigest()


def bc_cmd(out, src, extra):
    return [ENG + "/bc.sh", out, src] + extra


def engine():
    """path of the executor and of the run-time library's bitcode, built if the sources changed"""
    want = engine_hash()
    for d in (HERE + "/build", ENG + "/prebuilt"):
        try:
            if open(d + "/hash").read().strip() == want and os.path.exists(d + "/psx") and os.path.exists(d + "/rt.bc"):
                if run([d + "/psx", "--version"], 20)[0] == 0:
                    return d + "/psx", d + "/rt.bc"
        except OSError:
            pass
    d = HERE + "/build"
    os.makedirs(d, exist_ok=True)
    rc, out = run(["make", "-s", "-j4", "-C", ENG, "B=" + d])
    rc2, out2 = run(bc_cmd(d + "/rt.bc", ENG + "/rt.cpp", ["-fno-builtin"]))
    if rc or rc2:
        sys.stderr.write(out + out2)
        sys.exit(2)
    open(d + "/hash", "w").write(want + "\n")
    return d + "/psx", d + "/rt.bc"


class Harness:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)[:-4]
        self.src, self.flags, self.bounds, self.assume, self.opts = [], [], [], [], {}
        self.bcflags, self.ldflags = [], []  # symbolic side only; native link only
        for line in open(path):
            m = re.match(r"//@ (\w+):?\s*(.*)", line)
            if not m:
                continue
            k, v = m.groups()
            if k == "src":
                self.src += v.split()
            elif k == "flags":
                self.flags += [x.replace("@", os.path.dirname(path)) for x in v.split()]
            elif k == "bcflags":
                self.bcflags += [x.replace("@", os.path.dirname(path)) for x in v.split()]
            elif k == "ldflags":
                self.ldflags += v.split()
            elif k == "bounds":
                self.bounds.append(v)
            elif k == "assume":
                self.assume.append(v)
            elif k == "case":
                w = v.split()
                self.opts[w[0]] = dict(x.split("=", 1) for x in w[1:])

    def bitcode(self, d, rt, tier):
        out = "%s/%s.bc" % (d, self.name)
        fl = DEFS + self.bcflags + INC + self.flags + (["-DPSX_THOROUGH"] if tier == "thorough" else [])
        parts = []
        for i, s in enumerate([self.path] + [SRC + "/" + x for x in self.src]):
            o = "%s/%s.%d.bc" % (d, self.name, i)
            rc, log = run(bc_cmd(o, s, fl))
            if rc:
                return None, log
            parts.append(o)
        rc, log = run(["llvm-link-18"] + parts + [rt, "-o", out])
        if rc:
            return None, log
        return out, ""

    def native(self, d, tier, kind):
        out = "%s/%s.%s" % (d, self.name, kind)
        if os.path.exists(out):
            return out, ""
        fl = DEFS + INC + self.flags + ["-I" + ENG, "-DPSX_NATIVE", "-D_GLIBCXX_ASSERTIONS"] + (["-DPSX_THOROUGH"] if tier == "thorough" else [])
        fl += {"plain": ["-O1", "-ftrivial-auto-var-init=pattern"],
               "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-ftrivial-auto-var-init=pattern"],
               "tsan": ["-O1", "-g1", "-fsanitize=thread"],
               "sched": ["-O1", "-DPSX_SCHED"]}[kind]
        ld = ["-lpthread", "-Wl,--unresolved-symbols=ignore-all"]
        if kind == "sched":
            ld += ["-Wl," + ",".join("--wrap=" + f for f in ("pthread_create", "pthread_join", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast", "sched_yield"))]
        cmd = ["g++", "-std=c++17", "-w"] + fl + [self.path, ENG + "/psx_native.cpp"] + [SRC + "/" + x for x in self.src] + ["-o", out + ".tmp"] + self.ldflags + ld
        rc, log = run(cmd)
        if rc:
            return None, log
        os.rename(out + ".tmp", out)
        return out, ""


def native_run(exe, case, inputs, d, sched=None, obs=False, timeout=20):
    """(return code or None for a hang, log, observations)"""
    w = tempfile.mkdtemp(prefix="run", dir=d)
    open(w + "/in", "w").write("\n".join(map(str, inputs)) + "\n")
    cmd = [exe, case, w + "/in"]
    if sched is not None:
        open(w + "/sched", "w").write("\n".join(map(str, sched)) + "\n")
        cmd.append(w + "/sched")
    env = {"PATH": "/usr/bin:/bin", "MALLOC_PERTURB_": "1", "PSX_TMP": w,
           "ASAN_OPTIONS": "detect_leaks=0:malloc_fill_byte=254:max_malloc_fill_size=1000000:allocator_may_return_null=0",
           "UBSAN_OPTIONS": "print_stacktrace=1", "TSAN_OPTIONS": "exitcode=66"}
    if obs:
        env["PSX_OBS"] = w + "/obs"
    rc, log = run(cmd, timeout, env, w)
    o = []
    if obs:
        try:
            o = open(w + "/obs").read().split("\n")[:-1]
        except OSError:
            pass
    shutil.rmtree(w, ignore_errors=True)
    return rc, log, o


def confirm(h, d, tier, case, v):
    """replay one candidate on the real code: (confirmed, which, log)"""
    tries = []
    threads = bool(v["sched"]) or v["kind"] in ("race", "deadlock")
    if v["kind"] == "race":
        tries = ["tsan", "sched", "plain"]
    elif v["kind"] in ("memory", "division", "trap", "ub"):
        tries = ["asan", "plain"] if not threads else ["asan", "sched", "plain"]
    else:
        tries = (["sched"] if threads else []) + ["plain", "asan"]
    last = ""
    for t in tries:
        exe, log = h.native(d, tier, t)
        if not exe:
            last += "native build (%s) failed: %s\n" % (t, log[-2000:])
            continue
        for attempt in range(5 if t == "tsan" else 1):
            rc, log, _ = native_run(exe, case, v["inputs"], d, v["sched"] if t == "sched" else None, timeout=30 if t == "plain" else 60)
            if rc is None:
                if v["kind"] in ("hang", "deadlock", "memory"):
                    return True, t, "no result within the time limit\n" + log[-3000:]
                last += "%s: time limit\n" % t
                continue
            if rc in (78, 79, 81):
                last += "%s: exit %s %s\n" % (t, rc, log[-300:])
                continue
            if rc != 0:
                if t == "tsan" and rc == 66 and v["kind"] != "race":
                    continue
                return True, t, "exit status %s\n%s" % (rc, log[-4000:])
            last += "%s: completed normally\n" % t
    return False, "", last


def demangle(names):
    if not names:
        return []
    p = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    return p.stdout.decode().split("\n")[:len(names)]


def known():
    try:
        return json.load(open(HERE + "/known_findings.json"))
    except OSError:
        return []


def check(prop, tier):
    psx, rt = engine()
    hs = [Harness(p) for p in sorted(glob.glob("%s/h/%s_*.cpp" % (HERE, prop)) + glob.glob("%s/h/%s.cpp" % (HERE, prop)))]
    if not hs:
        print("no harness for " + prop)
        return 2
    d = tempfile.mkdtemp(prefix="psxchk_")
    try:
        return check_in(prop, tier, psx, rt, hs, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_in(prop, tier, psx, rt, hs, d):
    total = float(os.environ.get("PSX_BUDGET", "720" if tier == "quick" else "14400"))
    percase = 120.0 if tier == "quick" else 1800.0
    solver_ms = 20000 if tier == "quick" else 120000
    pool = cf.ThreadPoolExecutor(JOBS)
    bcs = {h.name: pool.submit(h.bitcode, d, rt, tier) for h in hs}
    nat = {h.name: pool.submit(h.native, d, tier, "plain") for h in hs}
    only = os.environ.get("PSX_CASES", "")
    jobs = []
    for h in hs:
        bc, log = bcs[h.name].result()
        if not bc:
            print("%s does not compile:\n%s" % (h.name, log[-6000:]))
            return 2
        rc, out = run([psx, bc, "--list"])
        for c in out.split():
            if only and not re.fullmatch(only, c):
                continue
            jobs.append((h, bc, c))
    # the longest first
    jobs.sort(key=lambda j: -float(j[0].opts.get(j[2], {}).get("order", 0)))

    def one(job):
        h, bc, c = job
        o = h.opts.get(c, {})
        t = float(o.get("timeout_" + tier, o.get("timeout", percase)))
        t = max(5.0, min(t, total - (time.time() - T0)))
        out = "%s/%s.%s.json" % (d, h.name, c)
        cmd = [psx, bc, "--entry", c, "--out", out, "--timeout", str(t), "--solver-ms", o.get("solver_ms", str(solver_ms)), "--repo", SRC]
        if "max_instr" in o:
            cmd += ["--max-instr", o["max_instr"]]
        rc, log = run(cmd, t + 150)
        try:
            j = json.load(open(out))
        except (OSError, ValueError):
            j = {"case": c, "complete": False, "incomplete": ["executor ended with %s: %s" % (rc, log[-500:])], "violations": [], "samples": [], "functions": [], "crashed": True}
        return j

    results = list(zip(jobs, pool.map(one, jobs)))

    # ---- replay candidates and samples on the real code
    seen, todo = set(), []
    for (h, bc, c), j in results:
        n = 0
        for v in j.get("violations", []):
            key = (h.name, c, v["kind"], v["msg"], v["loc"])
            if key in seen or n >= 6:
                continue
            seen.add(key)
            n += 1
            todo.append((h, c, v))
    nats = {}
    for h in hs:
        exe, log = nat[h.name].result()
        nats[h.name] = exe
        if not exe:
            print("%s does not build natively:\n%s" % (h.name, log[-3000:]))
            return 2
    # build the instrumented variants once each
    need = set()
    for h, c, v in todo:
        threads = bool(v["sched"]) or v["kind"] in ("race", "deadlock")
        k = "tsan" if v["kind"] == "race" else "asan" if v["kind"] in ("memory", "division", "trap", "ub") else "sched" if threads else None
        if k:
            need.add((h, k))
    list(pool.map(lambda x: x[0].native(d, tier, x[1]), need))
    conf = list(pool.map(lambda x: confirm(x[0], d, tier, x[1], x[2]), todo))

    samples = [(h, c, s) for (h, bc, c), j in results for s in j.get("samples", [])]

    def val(x):
        h, c, s = x
        rc, log, o = native_run(nats[h.name], c, s["inputs"], d, obs=True)
        exp = [str(y) for y in s["obs"]]
        ok = rc == 0 and obs_equal(o, exp)
        return ok, rc, o, log
    vals = list(pool.map(val, samples))
    agreed = sum(1 for v in vals if v[0])
    disagree = [{"case": c, "inputs": s["inputs"][:40], "expected": s["obs"][:20], "native": v[2][:20], "exit": v[1]} for (h, c, s), v in zip(samples, vals) if not v[0]]

    # ---- verdict
    kf = {(k["property"], k["case"]): k for k in known() if k.get("status") != "fixed"}
    nviol, unconf = 0, []
    os.makedirs(HERE + "/replays", exist_ok=True)
    known_hit = set()
    for i, ((h, c, v), (ok, how, log)) in enumerate(zip(todo, conf)):
        if not ok:
            unconf.append({"case": c, "kind": v["kind"], "msg": v["msg"], "loc": v["loc"], "inputs": v["inputs"][:60], "log": log[-600:]})
            continue
        if (prop, c) in kf:
            if c not in known_hit:
                known_hit.add(c)
                print("KNOWN-FINDING: property=%s %s" % (prop, kf[(prop, c)]["what"]))
            continue
        path = "%s/replays/%s_%s_%d.json" % (HERE, prop, c, i)
        json.dump({"property": prop, "harness": h.name, "tier": tier, "case": c, "kind": v["kind"], "msg": v["msg"], "loc": v["loc"],
                   "inputs": v["inputs"], "sched": v["sched"], "confirmed_by": how, "log": log}, open(path, "w"), indent=1)
        nviol += 1
        if nviol <= 10:
            print("%s: %s: %s at %s; inputs %s; confirmed on the real code (%s build)" % (c, v["kind"], v["msg"], v["loc"], v["inputs"][:40], how))
            tail = [l for l in log.split("\n") if "PSX-INPUT" not in l and "PSX-CHOICE" not in l]
            print("   " + "\n   ".join(tail[:6]))
        print("VIOLATION property=%s replay=%s" % (prop, path))

    # ---- evidence
    def tot(k):
        return sum(j.get(k, 0) for _, j in results)
    funcs = sorted({f for _, j in results for f in j.get("functions", [])})
    funcs = sorted(set(demangle(funcs)))
    inc = []
    cases = []
    for (h, bc, c), j in results:
        for x in j["incomplete"]:
            inc.append("%s: %s" % (c, x))
        cases.append({"harness": h.name, "case": c, "complete": j["complete"], "paths": j.get("paths", 0), "paths_completed": j.get("paths_completed", 0),
                      "forks": j.get("forks", 0), "instructions": j.get("instructions", 0), "assertions": j.get("asserts", 0),
                      "assertions_symbolic": j.get("asserts_symbolic", 0), "queries": j.get("queries", 0), "unsat": j.get("unsat", 0),
                      "sat": j.get("sat", 0), "unknown": j.get("unknown", 0), "schedules": j.get("schedule_forks", 0),
                      "solver_seconds": round(j.get("solver_seconds", 0), 3), "wall": round(j.get("wall", 0), 2),
                      "covers": j.get("covers", {}), "incomplete": j["incomplete"]})
    smp = [{"case": c, "inputs": s["inputs"][:60], "schedule": s["sched"][:60], "observed": s["obs"][:20]} for h, c, s in samples[:12]]
    vac = [x["case"] for x in cases if x["complete"] and x["paths_completed"] == 0 and not any(c == x["case"] for h, c, v in todo)]
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {
              "states": tot("states"), "transitions": tot("instructions"), "traces_validated_against_impl": agreed,
              "samples": smp, "exhaustive": all(x["complete"] for x in cases),
              "paths": tot("paths"), "paths_completed": tot("paths_completed"), "schedule_forks": tot("schedule_forks"),
              "assertions_decided": tot("asserts"), "assertions_over_symbolic_values": tot("asserts_symbolic"),
              "queries": tot("queries"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"), "queries_unknown": tot("unknown"),
              "queries_answered_from_cache_or_models": tot("cache_hits"),
              "equalities_settled_as_identical_terms": tot("nf_same"), "equalities_settled_by_polynomial_normal_form": tot("nf_proved"),
              "normal_form_verdicts_confirmed_by_smt": tot("nf_confirmed"), "normal_form_verdicts_smt_timeout": tot("nf_open"),
              "solver_seconds": round(tot("solver_seconds"), 3), "solver": next((j["z3"] for _, j in results if "z3" in j), ""),
              "functions_encoded": len(funcs), "functions": funcs[:400],
              "source_lines_executed": sum(j.get("lines", 0) if isinstance(j.get("lines", 0), int) else len(j["lines"]) for _, j in results),
              "bounds": [b for h in hs for b in h.bounds], "cases": cases, "incomplete": inc,
              "trace_disagreements": disagree[:20], "candidates": len(todo), "candidates_confirmed": sum(1 for x in conf if x[0]),
              "candidates_not_reproduced": unconf[:20]},
          "assumptions": [a for h in hs for a in h.assume] + COMMON, "wall_s": round(time.time() - T0, 2), "violations": nviol}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (HERE, prop), "w"), indent=1)
    for x in inc[:20]:
        print("INCOMPLETE " + x)
    for x in unconf[:20]:
        print("NOT-REPRODUCED %s: %s %s %s %s\n   %s" % (x["case"], x["kind"], x["msg"], x["loc"], x["inputs"], x["log"].replace("\n", "\n   ")))
    for x in disagree[:10]:
        print("DISAGREEMENT %s" % x)
    print("%s %s: %d cases, %d paths, %d assertions (%d symbolic), %d queries (%d unsat, %d sat, %d unknown), solver %.1f s, %d/%d traces agree with the real code, %d violations, %.1f s" % (
        prop, tier, len(cases), tot("paths"), tot("asserts"), tot("asserts_symbolic"), tot("queries"), tot("unsat"), tot("sat"), tot("unknown"), tot("solver_seconds"), agreed, len(samples), nviol, time.time() - T0))
    if nviol:
        return 1
    if vac:
        print("VACUOUS " + " ".join(vac))
        return 2
    if tot("paths_completed") == 0:
        print("nothing was explored")
        return 2
    return 0


COMMON = [
    "clang -O1 bitcode of the code stands for the compiled code; counterexamples and sampled traces are re-run on a g++ build",
    "the C++ standard library headers are the real ones except the stream classes, and the out-of-line library parts, which are replaced by /verif/engine/shadow and rt.cpp",
    "doubles built from small integers are computed exactly; the sign of zero is not distinguished on them",
    "memory allocation does not fail; threads switch at synchronisation operations, and unsynchronised accesses are reported as races",
]


def obs_equal(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y:
            continue
        try:
            fx, fy = float(x), float(y)
        except ValueError:
            return False
        if fx != fy and not (fx != fx and fy != fy):
            return False
    return True


def replay(path):
    r = json.load(open(path))
    h = Harness("%s/h/%s.cpp" % (HERE, r["harness"]))
    d = tempfile.mkdtemp(prefix="psxchk_")
    try:
        ok, how, log = confirm(h, d, r["tier"], r["case"], r)
        print(log)
        print("reproduced (%s build)" % how if ok else "not reproduced")
        return 1 if ok else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(a):
    if a[:1] == ["--setup"]:
        engine()
        return 0
    if a[:1] == ["--replay"]:
        return replay(a[1])
    return check(a[0], a[1] if len(a) > 1 else "quick")


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
