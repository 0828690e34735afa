#!/usr/bin/env python3
"""Driver: builds the symbolic executor and the IR of /repo's current sources,
runs the harness cases of a property, replays counterexamples, writes evidence.

  vp.py setup
  vp.py check C05 [--tier quick|thorough] [--case NAME] [--keep]
  vp.py replay FILE
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(HERE, "build"))
LLVM = "/usr/lib/llvm-18/bin"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = int(os.environ.get("VP_JOBS", "0") or 0) or (os.cpu_count() or 4)

INC = ["-I%s/model/include" % HERE, "-I%s/include" % REPO, "-I%s/src/streaming" % REPO,
       "-I%s/src/logger" % REPO, "-I%s/harness" % HERE, "-I%s/python" % REPO]
IRF = ["-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", "-g", "-fno-access-control", "-w",
       "-include", HERE + "/model/prelude.h", "-DVP_ENGINE", "-U_FORTIFY_SOURCE", '-DACQUIRE_ZARR_API_VERSION="0.0.1"']
NATF = ["-std=c++20", "-include", HERE + "/model/std.h", "-O0", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-fno-access-control", "-w",
        '-DACQUIRE_ZARR_API_VERSION="0.0.1"']
OSCALLS = ["open", "open64", "close", "pwritev", "pwritev64", "pwrite", "pwrite64", "write", "writev", "lseek", "lseek64",
           "fsync", "fdatasync", "stat", "stat64", "access", "mkdir", "ftruncate", "ftruncate64", "_ZNSt6thread20hardware_concurrencyEv"]


class Fail(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise Fail("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def files(d, *pats):
    out = []
    for r, _, fs in os.walk(d):
        for f in fs:
            if any(f.endswith(p) for p in pats) or not pats:
                out.append(os.path.join(r, f))
    return sorted(out)


def repo_sources():
    return [f for f in files(REPO + "/src", ".cpp", ".cc", ".cxx")]


def repo_all():
    return files(REPO + "/src", ".cpp", ".cc", ".cxx", ".hh", ".h", ".hpp") + files(REPO + "/include")


def locked(path):
    """build something once, also when several checks run at the same time"""
    import fcntl
    os.makedirs(os.path.dirname(path), exist_ok=True)
    f = open(path + ".lock", "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_engine():
    src = files(HERE + "/engine", ".cpp", ".h", ".sh")
    out = os.path.join(BUILD, "engine-" + digest(src))
    exe = out + "/symex"
    if not os.path.exists(exe):
        with locked(out):
            if not os.path.exists(exe):
                run(["bash", HERE + "/engine/build.sh", out + ".tmp"])
                os.makedirs(out, exist_ok=True)
                os.replace(out + ".tmp/symex", exe)
                shutil.rmtree(out + ".tmp", ignore_errors=True)
    return exe


class Builder:
    """compiles units of one flavour ('ir' or 'native') into a cache directory"""

    def __init__(self, flavour, pool):
        self.flavour = flavour
        self.pool = pool
        flags = IRF if flavour == "ir" else NATF
        self.model_inc = files(HERE + "/model/include") + [HERE + "/model/prelude.h", HERE + "/model/std.h", HERE + "/harness/vp.h"] + \
            [f for f in files(HERE + "/harness", ".h")]
        self.repo_hdr = [f for f in repo_all() if not f.endswith((".cpp", ".cc", ".cxx"))]
        # (the binding is one file that a harness includes)
        self.binding = digest(files(REPO + "/python", ".cpp", ".hpp", ".h"))
        self.tag = digest(self.model_inc + self.repo_hdr, flavour + " ".join(flags) + REPO)
        self.flags = flags
        os.makedirs(BUILD + "/obj", exist_ok=True)

    def unit(self, src, defs=()):
        key = digest([src], self.tag + " ".join(defs) + (self.binding if src.startswith(HERE + "/harness/py") else ""))
        suffix = ".bc" if self.flavour == "ir" else ".o"
        out = "%s/obj/%s-%s%s" % (BUILD, os.path.basename(src), key, suffix)
        if os.path.exists(out):
            return out
        tmp = out + ".%d.%d" % (os.getpid(), threading.get_ident())
        if self.flavour == "ir":
            run(["clang++"] + self.flags + list(defs) + INC + [src, "-o", tmp])
        else:
            run(["clang++"] + self.flags + list(defs) + INC + ["-c", src, "-o", tmp])
            if src.startswith(REPO + "/"):
                for wide in (False, True):
                    args = []
                    for s in OSCALLS:
                        if s.endswith("64") == wide:
                            args += ["--redefine-sym", "%s=vp_os_%s" % (s, s[:-2] if wide else s)]
                    run(["objcopy"] + args + [tmp])
        os.replace(tmp, out)
        return out

    def start(self, harness, defs=()):
        units = repo_sources()
        if self.flavour == "ir":
            units += [HERE + "/model/rt_core.cpp", HERE + "/model/rt_ios.cpp", HERE + "/model/env.cpp"]
        else:
            units += [HERE + "/model/env.cpp", HERE + "/native/native.cpp"]
        # large units first
        units.sort(key=lambda f: -os.path.getsize(f))
        fs = [self.pool.submit(self.unit, u) for u in units]
        fs.append(self.pool.submit(self.unit, harness, tuple(defs)))
        return fs

    def link(self, objs, out):
        if os.path.exists(out):
            return out
        tmp = out + ".%d" % os.getpid()
        if self.flavour == "ir":
            run([LLVM + "/llvm-link", "-o", tmp + ".l"] + objs)
            run([build_engine(), "--repo", REPO + "/", "--prep", tmp + ".l", tmp])
            os.unlink(tmp + ".l")
        else:
            run(["clang++", "-fsanitize=address", "-g", "-o", tmp] + objs + ["-lpthread"])
        os.replace(tmp, out)
        return out


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (int(5.5 * 2**30), int(5.5 * 2**30)))
    os.setpgid(0, 0)


def symex(exe, ir, entry, args, opts, out, timeout):
    cmd = [exe, "--ir", ir, "--entry", entry, "--out", out, "--repo", REPO + "/", "--seed", str(SEED)]
    for a in args:
        cmd += ["--arg", str(a)]
    cmd += [str(o) for o in opts]
    if os.path.exists(out):
        os.unlink(out)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           preexec_fn=limits, timeout=timeout)
        rc, txt = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        rc, txt = -1, "killed after %d s" % timeout
    if not os.path.exists(out):
        return {"crash": "engine ended with %s: %s" % (rc, txt[-500:])}
    with open(out) as f:
        return json.load(f)


def native_run(exe, ins, args, work, timeout=120):
    """run the machine-code build on fixed inputs; effects stay in the model's in-memory file system"""
    if exe is None:
        return "unavailable", "", ""
    fn = os.path.join(work, "in-%d-%d" % (os.getpid(), threading.get_ident()))
    with open(fn, "w") as f:
        for n, v, *_ in ins:
            f.write("%s %d\n" % (n, v))
    env = {"PATH": os.environ.get("PATH", ""), "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1"}
    try:
        p = subprocess.run([exe, fn] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=timeout, env=env, cwd=work)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return "timeout", "", ""
    finally:
        os.unlink(fn)


MEMKINDS = {"out-of-bounds", "use-after-free", "null-dereference", "double-free", "wild-pointer", "mismatched-free", "invalid-free"}


def load_known():
    p = HERE + "/known_findings.json"
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def known_match(k, prop, case, v):
    if k.get("property") != prop or k.get("status") != "known":
        return False
    m = k["match"]
    if "case" in m and not re.fullmatch(m["case"], case):
        return False
    if "kind" in m and m["kind"] != v["kind"]:
        return False
    if "msg" in m and not re.search(m["msg"], v["msg"]):
        return False
    if "where" in m and not re.search(m["where"], v["where"] + " " + " ".join(map(str, v["trace"]))):
        return False
    for name, rng in m.get("inputs", {}).items():
        vals = [x[1] for x in v["ins"] if x[0] == name]
        if not vals or not all(rng[0] <= x <= rng[1] for x in vals[:1]):
            return False
    return True


def check(prop, tier, only=None, verbose=False):
    t0 = time.time()
    sys.path.insert(0, HERE)
    import checks
    spec = checks.CHECKS[prop]
    deadline = t0 + spec.get("deadline_" + tier, 600 if tier == "quick" else 3000)
    pool = cf.ThreadPoolExecutor(JOBS)
    work = "%s/run/%s-%s-%d" % (BUILD, prop, tier, os.getpid())
    os.makedirs(work, exist_ok=True)
    out = {}
    cases = [c for c in spec["cases"] if (tier in c.get("tiers", ("quick", "thorough"))) and (only is None or c["name"] == only)]
    harnesses = sorted({c.get("harness", spec.get("harness")) for c in cases})
    feng = pool.submit(build_engine)
    irb = Builder("ir", pool)
    jobs = {h: irb.start(os.path.join(HERE, "harness", h)) for h in harnesses}
    natb = Builder("native", pool)
    want_native = any(c.get("native", True) for c in cases)
    njobs = {h: natb.start(os.path.join(HERE, "harness", h)) for h in harnesses} if want_native else {}
    exe = feng.result()
    irs = {}
    for h in harnesses:
        objs = [f.result() for f in jobs[h]]
        irs[h] = irb.link(objs, work + "/" + h + ".bc")
    tb = time.time() - t0
    if verbose:
        print("build %.1f s" % tb, file=sys.stderr)

    natfail = []

    def native_exe(h):
        with natlock:
            if natfail:
                return None
            p = "%s/%s.exe" % (work, h)
            try:
                return natb.link([f.result() for f in njobs[h]], p)
            except Fail as e:
                natfail.append(str(e)[-1500:])
                return None
    natlock = threading.Lock()

    def one(i_c):
        i, c = i_c
        h = c.get("harness", spec.get("harness"))
        left = deadline - time.time()
        if left < 5:
            return c, {"crash": "not started: time budget used up"}
        tmax = min(c.get("max_time_" + tier, c.get("max_time", 240 if tier == "quick" else 1200)), left)
        opts = ["--max-time", "%.0f" % tmax, "--max-viol", c.get("max_viol", 6), "--max-samples", c.get("max_samples", 6)]
        opts += c.get("opts", [])
        r = symex(exe, irs[h], c.get("entry", "harness"), c.get("args", []), opts, "%s/case-%d.json" % (work, i), tmax + 60)
        if verbose:
            print("  case %-40s %s" % (c["name"], r.get("crash") or "paths %d viol %d inc %d %s z3 %d t %.1f" % (
                r["paths"], len(r["violations"]), r["incomplete"], r["engine_errors"][:2], r["solver"]["z3_calls"], r["explore_s"])),
                file=sys.stderr)
        return c, r

    order = sorted(enumerate(cases), key=lambda ic: -ic[1].get("cost", 1))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(one, order))

    # ------------------------------------------------ aggregate
    agg = dict(paths=0, forks=0, ended_early=0, steps=0, asserts=0, assert_queries=0, mem_checks=0, sched_points=0)
    sol = dict(queries=0, z3_calls=0, sat=0, unsat=0, unknown=0, cache_hits=0, model_hits=0, case_splits=0, time_s=0.0, max_s=0.0)
    incomplete, errors, reached, funcs, case_ev, samples = [], [], set(), {}, [], []
    viols = []
    for c, r in results:
        if "crash" in r:
            incomplete.append("%s: %s" % (c["name"], r["crash"]))
            case_ev.append({"case": c["name"], "result": r["crash"]})
            continue
        for k in agg:
            agg[k] += r[k]
        for k in sol:
            sol[k] = max(sol[k], r["solver"][k]) if k == "max_s" else sol[k] + r["solver"][k]
        for w in r["incomplete_why"]:
            incomplete.append("%s: %s" % (c["name"], w))
        for w in r["engine_errors"]:
            errors.append("%s: %s" % (c["name"], w))
        reached |= {(c["name"], l) for l in r["reached"]}
        for n, k in r["functions"]:
            funcs[n] = funcs.get(n, 0) + k
        case_ev.append({"case": c["name"], "args": c.get("args", []), "paths": r["paths"], "z3_calls": r["solver"]["z3_calls"],
                        "complete": not r["incomplete_why"] and not r["engine_errors"], "explore_s": round(r["explore_s"], 2)})
        for v in r["violations"]:
            viols.append((c, v))
        for s in r["samples"]:
            samples.append((c, s))

    # ------------------------------------------------ validate samples natively
    validated = mismatched = otherwise = 0
    mism = []
    todo = [(c, s) for c, s in samples if c.get("native", True)]
    # spread over the cases
    step = max(1, len(todo) // spec.get("native_samples", 40))
    todo = todo[::step]

    hung = []

    def val(cs):
        c, s = cs
        if hung:  # (one trace that never ends is enough to tell)
            return False, c, s, "unavailable", "", "", ([], [])
        rc, so, se = native_run(native_exe(c.get("harness", spec.get("harness"))), s["ins"], c.get("args", []), work, 40 if c.get("threads") else 120)
        if rc == "timeout":
            hung.append(c["name"])
        obs = sorted((int(a), int(b)) for a, b in re.findall(r"^OBS (\d+) (\d+)$", so, re.M))
        want = sorted((int(a), int(b)) for a, b in s["obs"])
        ok = rc == 0 and "DONE" in so and "EXHAUSTED" not in so and obs == want
        return ok, c, s, rc, so[-300:], se[-800:], (obs, want)
    if todo:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for ok, c, s, rc, so, se, ow in ex.map(val, todo):
                if rc == "unavailable":
                    continue
                if c.get("threads") and not ok and rc == 0:
                    # real threads took another schedule and met the faults at other operations
                    otherwise += 1
                    continue
                if ok:
                    validated += 1
                else:
                    mismatched += 1
                    mism.append({"case": c["name"], "inputs": s["ins"][:40], "rc": rc, "out": so, "err": se,
                                 "obs": ow[0][:10], "want": ow[1][:10]})

    # ------------------------------------------------ violations
    known = load_known()
    reported, knownhit, unconfirmed = [], {}, []
    seen = set()
    for c, v in viols:
        sig = (c["name"], v["kind"], v["msg"], v["where"])
        if sig in seen:
            continue
        seen.add(sig)
        kf = next((k for k in known if known_match(k, prop, c["name"], v)), None)
        if kf:
            knownhit[kf["what"]] = knownhit.get(kf["what"], 0) + 1
            continue
        if len(reported) >= 5 or (reported and time.time() - t0 > 600):
            continue
        h = c.get("harness", spec.get("harness"))
        # concrete re-execution of the same code on the solver's values (and schedule)
        ro = ["--max-time", "60", "--inputs", ",".join(str(x[1]) for x in v["ins"])] + c.get("opts", [])
        if v["sched"]:
            ro += ["--sched", v["sched"]]
        r2 = symex(exe, irs[h], c.get("entry", "harness"), c.get("args", []), ro, work + "/replay.json", 90)
        again = "crash" not in r2 and any(w["kind"] == v["kind"] for w in r2["violations"])
        # machine-code run
        nat = None
        if c.get("native", True):
            rc, so, se = native_run(native_exe(h), v["ins"], c.get("args", []), work, 20 if c.get("threads") or hung else 120)
            nat = {"rc": rc, "out": so[-400:], "err": se[-1500:]}
            nat["reproduced"] = rc not in (0, 11, 12, 3, "unavailable")
            if rc == "unavailable":
                nat = None
        rec = {"property": prop, "case": c["name"], "harness": h, "args": c.get("args", []), "opts": c.get("opts", []),
               "violation": v, "engine_replay": again, "native_replay": nat}
        must = nat is not None and (v["kind"] == "assertion" or v["kind"] == "uncaught-exception") and not c.get("threads")
        if not again or (must and not nat["reproduced"]):
            unconfirmed.append(rec)
            continue
        d = HERE + "/evidence/replays"
        os.makedirs(d, exist_ok=True)
        path = "%s/%s-%d.json" % (d, prop, len(reported))
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        rec["path"] = path
        reported.append(rec)

    # ------------------------------------------------ vacuity
    vacuous = []
    for c, r in results:
        if "crash" in r:
            continue
        have = {l for n, l in reached if n == c["name"]}
        miss = set(c.get("reach", spec.get("reach", [1]))) - have
        if miss and not r["violations"] and not (r["incomplete_why"]):
            vacuous.append("%s: labels %s never reached" % (c["name"], sorted(miss)))

    wall = time.time() - t0
    samp = [{"case": c["name"], "args": c.get("args", []), "inputs": [x[:2] for x in s["ins"][:24]], "n_inputs": len(s["ins"]),
             "schedule": s["sched"][:200], "observed": s["obs"][:8]} for c, s in samples[:: max(1, len(samples) // 8)][:10]]
    ev = {
        "property": prop, "tier": tier, "seed": SEED, "level": "model_checking", "wall_s": round(wall, 2),
        "violations": len(reported),
        "assumptions": spec.get("assumptions", []) + checks.COMMON_ASSUMPTIONS,
        "coverage": {
            "states": agg["paths"] + agg["ended_early"] + agg["forks"],
            "transitions": agg["steps"],
            "traces_validated_against_impl": validated,
            "traces_mismatched": mismatched, "traces_on_another_schedule": otherwise,
            "samples": samp or [{"note": "no completed path"}],
            "paths_completed": agg["paths"], "paths_pruned": agg["ended_early"], "forks": agg["forks"],
            "property_assertions_evaluated": agg["asserts"], "property_assertions_decided_by_solver": agg["assert_queries"],
            "memory_checks": agg["mem_checks"], "scheduling_points": agg["sched_points"],
            "solver": {k: (round(v, 3) if isinstance(v, float) else v) for k, v in sol.items()},
            "bounds": spec["bounds"], "outside_bounds": spec.get("outside", ""),
            "cases": case_ev[:200],
            "functions_encoded": [[n[:110], k] for n, k in sorted(funcs.items(), key=lambda x: -x[1])][:120],
            "functions_encoded_total": len(funcs),
            "incomplete": incomplete[:40], "engine_errors": errors[:20], "mismatches": mism[:3], "native_build": natfail[:1],
            "unconfirmed": [{"case": u["case"], "violation": {k: u["violation"][k] for k in ("kind", "msg", "where")},
                             "engine": u["engine_replay"], "native": u["native_replay"]} for u in unconfirmed[:3]],
            "known_findings_hit": knownhit, "exhaustive_within_bounds": not incomplete and not errors,
            "build_s": round(tb, 2),
        },
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (HERE, prop), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    pool.shutdown()

    for w in incomplete[:10]:
        print("INCOMPLETE: " + w)
    for w in errors[:10]:
        print("ENGINE: " + w)
    for m in mism[:3]:
        print("MISMATCH: " + json.dumps(m)[:1500])
    for k, n in sorted(knownhit.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for u in unconfirmed:
        print("UNCONFIRMED: %s %s: %s at %s (engine %s, native %s)" % (u["case"], u["violation"]["kind"], u["violation"]["msg"],
              u["violation"]["where"], u["engine_replay"], u["native_replay"] and (u["native_replay"]["rc"], u["native_replay"]["err"][-300:])))
    for r in reported:
        v = r["violation"]
        print("  [%s] %s: %s" % (r["case"], v["kind"], v["msg"]))
        print("    at %s" % v["where"])
        print("    inputs %s" % " ".join("%s=%d" % (x[0], x[1]) for x in v["ins"][:16]))
        print("    replayed: interpreter %s, machine code %s" % (r["engine_replay"], r["native_replay"] and r["native_replay"]["reproduced"]))
        print("VIOLATION property=%s replay=%s" % (prop, r["path"]))
    print("%s %s: %d paths, %d assertions (%d by solver), %d queries, %.1f s solver, %.1f s wall, %d native traces%s" % (
        prop, tier, agg["paths"], agg["asserts"], agg["assert_queries"], sol["queries"], sol["time_s"], wall, validated,
        "" if not incomplete and not errors else " (incomplete)"))
    if reported:
        return 1
    if unconfirmed:
        print("ERROR: counterexamples that do not replay")
        return 2
    if vacuous:
        for w in vacuous:
            print("ERROR: vacuous: " + w)
        return 2
    if agg["paths"] == 0:
        print("ERROR: nothing explored")
        return 2
    return 0


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    pool = cf.ThreadPoolExecutor(JOBS)
    h = os.path.join(HERE, "harness", rec["harness"])
    irb, nat = Builder("ir", pool), Builder("native", pool)
    a, b, e = irb.start(h), nat.start(h), pool.submit(build_engine)
    work = "%s/run/replay-%d" % (BUILD, os.getpid())
    os.makedirs(work, exist_ok=True)
    ir = irb.link([f.result() for f in a], work + "/r.bc")
    v = rec["violation"]
    ro = ["--max-time", "120", "--inputs", ",".join(str(x[1]) for x in v["ins"])] + rec["opts"]
    if v["sched"]:
        ro += ["--sched", v["sched"]]
    r = symex(e.result(), ir, "harness", rec["args"], ro, work + "/r.json", 150)
    for w in r.get("violations", []):
        print("interpreter: %s: %s at %s" % (w["kind"], w["msg"], w["where"]))
        for t in w["trace"]:
            print("    " + str(t))
    rc, so, se = native_run(nat.link([f.result() for f in b], work + "/r.exe"), v["ins"], rec["args"], work)
    print("machine code: exit %s\n%s%s" % (rc, so[-2000:], se[-4000:]))
    shutil.rmtree(work, ignore_errors=True)
    return 1 if r.get("violations") else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("what", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    try:
        if a.cmd == "setup":
            pool = cf.ThreadPoolExecutor(JOBS)
            e = pool.submit(build_engine)
            fs = []
            for fl in ("ir", "native"):
                fs += Builder(fl, pool).start(HERE + "/harness/c28.cpp")
            e.result()
            for f in fs:
                f.result()
            return 0
        if a.cmd == "check":
            return check(a.what, a.tier, a.case, a.v)
        if a.cmd == "replay":
            return replay(a.what)
    except Fail as e:
        print("ERROR: %s" % e)
        return 2
    print("unknown command")
    return 2


if __name__ == "__main__":
    sys.exit(main())
