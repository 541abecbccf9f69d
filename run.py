#!/usr/bin/env python3
"""Decides the properties of the code in /repo by symbolic execution of its real sources.

usage: run.py check <property> [quick|thorough]      decide one property, write evidence/<property>.json
       run.py harness <name> [quick|thorough] [-v]   run one harness and print every result (debugging)
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, VERIF)
import checks  # noqa: E402

LIB = os.path.join(VERIF, "lib")
HARN = os.path.join(VERIF, "harness")
CFLAGS = ["-std=gnu90", "-DNDEBUG", "-DOPENELP_MAJOR_VERSION=0", "-DOPENELP_MINOR_VERSION=9",
          "-DOPENELP_PATCH_VERSION=4", "-DOPENELP_VERSION=0.9.4-dev", "-DOPENELP_EXTRA_VERSION=dev",
          "-DOPENELP_CONFIG_HINT=../etc/ELProxy.conf", "-DPCRE2_CODE_UNIT_WIDTH=8", "-DHAVE_SYSLOG=1",
          "-DOPENELP_API="]
HCFLAGS = ["-std=gnu99", "-DNDEBUG", "-DPCRE2_CODE_UNIT_WIDTH=8", "-DHAVE_SYSLOG=1", "-DOPENELP_API=",
           "-DOPENELP_VERSION=0.9.4-dev"]


def sh(cmd, timeout=None, cwd=None, env=None):
    """Run a command in its own process group; returns (rc, stdout, stderr); rc None on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "", "timeout"


class Inconclusive(Exception):
    pass


def parse_json(txt):
    try:
        return json.loads(txt)
    except ValueError:
        return None


def merged(name, tier):
    h = dict(checks.HARNESSES[name])
    h.update(h.get(tier, {}))
    h["name"] = name
    return h


OPT = "function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),globaldce"


def engine():
    """Path of the symbolic executor: the committed build if it matches the sources, else a fresh one."""
    d = os.path.join(VERIF, "engine")
    hs = hashlib.sha256()
    for f in ("expr.h", "expr.cpp", "sx.cpp"):
        hs.update(open(os.path.join(d, f), "rb").read())
    tag = hs.hexdigest()[:16]
    for p in (os.path.join(d, "sx-" + tag), os.path.join(VERIF, ".cache", "sx-" + tag)):
        if os.path.exists(p):
            return p
    os.makedirs(os.path.join(VERIF, ".cache"), exist_ok=True)
    p = os.path.join(VERIF, ".cache", "sx-" + tag)
    tmp = p + ".%d" % os.getpid()
    inc = subprocess.check_output(["llvm-config-18", "--includedir"]).decode().strip()
    ld = subprocess.check_output(["llvm-config-18", "--libdir"]).decode().strip()
    rc, so, se = sh(["clang++-18", "-O2", "-std=c++17", "-w", "-I" + inc, "-D__STDC_CONSTANT_MACROS", "-D__STDC_LIMIT_MACROS", os.path.join(d, "sx.cpp"),
                    os.path.join(d, "expr.cpp"), "-o", tmp, "-L" + ld, "-lLLVM-18", "-lz3"], 300)
    if rc != 0:
        raise Inconclusive("cannot build the symbolic executor:\n" + se[-2000:])
    os.rename(tmp, p)
    return p


def build_ir(h, tmp):
    """The real sources, the models and the harness as one LLVM module."""
    base = ["clang-18", "-c", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-builtin", "-w", "-DVP_SX", "-U_FORTIFY_SOURCE", "-I" + LIB]
    defs = ["-D" + d for d in h.get("defines", [])]
    out, jobs = [], []
    for s in h["sources"]:
        src, sdefs = (s, []) if isinstance(s, str) else (s[0], list(s[1:]))
        o = os.path.join(tmp, "g_" + os.path.basename(src) + ".bc")
        jobs.append(base + CFLAGS + sdefs + ["-I" + REPO + "/include", "-include", LIB + "/rename.h", os.path.join(REPO, "src", src), "-o", o])
        out.append(o)
    o = os.path.join(tmp, "g_harness.bc")
    jobs.append(base + HCFLAGS + defs + ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + HARN, os.path.join(HARN, h["file"]), "-o", o])
    out.append(o)
    o = os.path.join(tmp, "g_libc.bc")
    jobs.append(base + ["-std=gnu99", os.path.join(LIB, "libc.c"), "-o", o])
    out.append(o)
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for j, (rc, so, se) in zip(jobs, ex.map(lambda j: sh(j, 120), jobs)):
            if rc != 0:
                raise Inconclusive("cannot compile for symbolic execution: %s\n%s%s" % (" ".join(j[-3:]), so, se))
    if h.get("passes"):  # on the code under check only: the harness's checks and witnesses stay apart
        for o in out[:len(h["sources"])]:
            rc, so, se = sh(["opt-18", "-passes=" + OPT.replace(",globaldce", "," + h["passes"]), o, "-o", o], 120)
            if rc != 0:
                raise Inconclusive("cannot prepare the module:\n" + so + se)
    bc = os.path.join(tmp, "all.bc")
    rc, so, se = sh(["llvm-link-18"] + out + ["-o", bc], 120)
    if rc != 0:
        raise Inconclusive("cannot link for symbolic execution:\n" + so + se)
    ob = os.path.join(tmp, "opt.bc")
    rc, so, se = sh(["opt-18", "-passes=internalize," + OPT, "-internalize-public-api-list=vp_main", bc, "-o", ob], 120)
    if rc != 0:
        raise Inconclusive("cannot prepare the module:\n" + so + se)
    return ob


def sx_args(h):
    return ["-j", str(h.get("jobs", 4)), "-t", str(h.get("timeout", 600)), "-p", str(h.get("preempt", 0)), "-T", str(h.get("timeouts", 1)),
            "-s", str(h.get("steps", 3000000)), "-q", str(h.get("qtime", 60))] + (["-f"] if h.get("forksel") else []) + (["-d"] if h.get("dedup") else []) + (["-R"] if h.get("race") else [])


def build_native(h, tmp, variant):
    exe = os.path.join(tmp, "replay_" + variant[0])
    objs = []
    race = variant[0] == "race"
    san = ["-g", "-O1", "-fsanitize=thread", "-w", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer"] if race else ["-g", "-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,shift,signed-integer-overflow",
           "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-w", "-U_FORTIFY_SOURCE"] + variant[1]
    defs = ["-D" + d for d in h.get("defines", [])]
    for s in h["sources"]:
        src, sdefs = (s, []) if isinstance(s, str) else (s[0], list(s[1:]))
        o = os.path.join(tmp, "n_%s_%s.o" % (variant[0], os.path.basename(src)))
        rc, so, se = sh(["gcc", "-c"] + san + CFLAGS + sdefs + ["-I" + REPO + "/include", "-I" + LIB, "-include",
                        LIB + "/rename.h", os.path.join(REPO, "src", src), "-o", o], 120)
        if rc != 0:
            raise Inconclusive("cannot compile natively:\n" + se)
        objs.append(o)
    if race:	# the models and the harness are not watched
        ho = []
        for src in (os.path.join(HARN, h["file"]), os.path.join(LIB, "vp_native.c")):
            o = os.path.join(tmp, "n_race_h_%s.o" % os.path.basename(src))
            rc, so, se = sh(["gcc", "-c", "-g", "-O1", "-w", "-DVP_TSAN"] + HCFLAGS + defs + ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + LIB, "-I" + HARN, src, "-o", o], 120)
            if rc != 0:
                raise Inconclusive("cannot compile natively:\n" + se)
            ho.append(o)
        rc, so, se = sh(["gcc", "-fsanitize=thread"] + ho + objs + h.get("libs", []) + ["-o", exe], 120)
        if rc != 0:
            raise Inconclusive("cannot link natively:\n" + se)
        return exe
    rc, so, se = sh(["gcc"] + san + HCFLAGS + defs + ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + LIB, "-I" + HARN,
                    os.path.join(HARN, h["file"]), os.path.join(LIB, "vp_native.c")] + objs + h.get("libs", []) + ["-o", exe], 120)
    if rc != 0:
        raise Inconclusive("cannot link natively:\n" + se)
    return exe


RACE = ("race", [])
VARIANTS = [("zero", ["-ftrivial-auto-var-init=zero"]), ("pattern", ["-ftrivial-auto-var-init=pattern"])]


def replay(h, tmp, vals, race=False):
    vf = os.path.join(tmp, "values.txt")
    with open(vf, "w") as f:
        f.write("\n".join(str(v) for v in vals) + "\n")
    outs = []
    for variant in ([RACE] if race else VARIANTS):
        exe = build_native(h, tmp, variant)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=67:malloc_fill_byte=%d:max_malloc_fill_size=65536" %
                   (0 if variant[0] == "zero" else 0xA5), UBSAN_OPTIONS="print_stacktrace=1:exitcode=68", TSAN_OPTIONS="exitcode=69:halt_on_error=1:history_size=7:report_thread_leaks=0")
        rc, so, se = sh([exe, vf], 30, env=env)
        outs.append("[%s] rc=%s %s" % (variant[0], rc, se.strip()[-1500:]))
        if rc is None:
            return "the real code does not terminate on this input (30 s)", outs
        if rc == 66:
            return re.findall(r"CHECK-FAILED: (.*)", se)[-1], outs
        if rc in (67, 68, 69) or rc < 0:
            m = re.findall(r"(?:SUMMARY: |runtime error: )(.*)", se)
            return "memory or language error in the real code: " + (m[0] if m else "signal %d" % -rc), outs
    return None, outs


def run_harness(name, tier, verbose=False):
    h = merged(name, tier)
    if h.get("engine") == "py":
        mod = __import__(h["module"])
        return mod.run(h, tier, REPO, VERIF)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vp_" + name + "_")
    out = {"name": name, "status": "holds", "violations": [], "bounds": h.get("bounds", "")}
    try:
        ob = build_ir(h, tmp)
        sx = engine()
        rc, so, se = sh([sx] + sx_args(h) + (["-v"] if verbose else []) + [ob], h.get("timeout", 600) + 60)
        js = parse_json(so.strip().splitlines()[-1]) if so and so.strip() else None
        if rc is None:
            raise Inconclusive("time limit reached")
        if js is None:
            raise Inconclusive("the symbolic executor failed (rc %s): %s" % (rc, (so + se)[-800:]))
        if verbose:
            print(json.dumps({k: v for k, v in js.items() if k not in ("violation", "functions")}))
            print(" ".join("%s:%d/%d" % (k, v[0], v[1]) for k, v in js["functions"].items()))
            print(se[-3000:])
        out.update({"paths": js["paths"], "pruned": js["pruned"], "instructions": js["instructions"], "forks": js["forks"], "queries": js["queries"],
                    "sat": js["queries_sat"], "unsat": js["queries_unsat"], "solver_s": round(js["solver_us"] / 1e6, 3), "checks": js["checks"],
                    "checks_solved": js["checks_solved"], "schedule_points": js["schedule_points"], "max_steps": js["max_steps"],
                    "functions": js["functions"], "witnesses": len(js["witnesses"])})
        if js["status"] == "violated":
            v = js["violation"]
            if verbose:
                print("counterexample: %s: %s\n  at %s\n  values %s\n  %s" % (v["kind"], v["msg"], v["where"], v["values"][:80], "\n  ".join(v["log"])))
            if v["kind"] == "model" or v["msg"].startswith("model:"):
                raise Inconclusive("outside the model: %s at %s" % (v["msg"], v["where"]))
            what, logs = replay(h, tmp, v["values"], v["kind"] == "race")
            if verbose:
                print("replay ->", what, "\n".join(logs))
            if what is None:
                raise Inconclusive("counterexample not reproduced by the real code: %s at %s\n%s" % (v["msg"], v["where"], "\n".join(logs)))
            d = os.path.join(VERIF, "replays", name)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            shutil.copy(os.path.join(tmp, "values.txt"), d)
            with open(os.path.join(d, "report.txt"), "w") as f:
                f.write("harness %s (%s)\nsolver: %s: %s\nat %s\nreal code: %s\n%s\nreplay: python3 %s/run.py replay %s %s\n" % (
                    name, tier, v["kind"], v["msg"], v["where"], what, "\n".join(logs), VERIF, name, d + "/values.txt"))
            out["violations"].append({"desc": v["msg"], "where": v["where"], "what": what, "replay": d})
            out["status"] = "violated"
        elif js["status"] != "holds":
            raise Inconclusive(js.get("reason", "?"))
        else:
            if not js["witnesses"]:
                raise Inconclusive("harness has no reachability witness")
            vac = [w for w, r in js["witnesses"].items() if not r and w not in h.get("optional_witnesses", [])]
            if vac:
                raise Inconclusive("vacuous: never reached: " + "; ".join(vac))
    except Inconclusive as e:
        out["status"] = "inconclusive"
        out["reason"] = str(e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    out["wall_s"] = round(time.time() - t0, 2)
    return out


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    p = checks.PROPERTIES[prop]
    names = [n for n in p["harnesses"] if tier == "thorough" or not checks.HARNESSES[n].get("thorough_only")]
    names += p.get("thorough_extra", []) if tier == "thorough" else []
    outs = []
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VP_JOBS", "3"))) as ex:
        futs = [ex.submit(run_harness, n, tier) for n in names]
        for f in futs:
            outs.append(f.result())
    viol = [(o, v) for o in outs for v in o["violations"]]
    inc = [o for o in outs if o["status"] == "inconclusive"]
    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    entries = json.load(open(kf)) if os.path.exists(kf) else []
    fresh = []
    for o, v in viol:
        k = [e for e in entries if e.get("status") == "known" and e["property"] == prop and e.get("harness") == o["name"] and e.get("check") == v["desc"]]
        (known if k else fresh).append((o, v, k[0] if k else None))
    cov = {
        "assertions_checked": sum(o.get("checks", 0) for o in outs),
        "assertions_decided_by_solver": sum(o.get("checks_solved", 0) for o in outs),
        "checker_cmd": "python3 run.py check %s %s" % (prop, tier),
        "trusted_base": ["engine/sx (symbolic executor of this directory)", "z3 4.8.12", "clang 18 front end", "lib/os.h and lib/libc.c (models of the operating system and C library boundary)"],
        "explanation": "symbolic execution of the real sources (LLVM IR compiled from /repo on this run), every feasible path within the bounds; each assertion is decided by the SMT solver for all values of the symbolic inputs; nothing outside the bounds is claimed",
        "harnesses": [{k: o.get(k) for k in ("name", "status", "bounds", "paths", "pruned", "instructions", "forks", "checks", "checks_solved", "queries", "sat", "unsat",
                                            "solver_s", "schedule_points", "max_steps", "witnesses", "wall_s", "functions", "reason", "extra") if o.get(k) is not None} for o in outs],
        "functions_encoded": sorted({f for o in outs for f in o.get("functions", {})}),
        "queries": sum(o.get("queries", 0) for o in outs),
        "solver_s": round(sum(o.get("solver_s", 0) for o in outs), 3),
        "paths": sum(o.get("paths", 0) for o in outs),
        "reachability_witnesses": sum(o.get("witnesses", 0) for o in outs),
        "samples": [{"harness": o["name"], "paths": o.get("paths"), "checks": o.get("checks")} for o in outs][:6],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": p.get("assumptions", []) + checks.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for o in outs:
        print("%-28s %-12s %6.1fs  paths %-7s solver %6.1fs  checks %s%s" % (o["name"], o["status"], o["wall_s"], o.get("paths"), o.get("solver_s", 0), o.get("checks"),
              "  " + o["reason"] if o["status"] == "inconclusive" else ""))
    for o, v, e in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    for o, v, _ in fresh:
        print("%s: %s (real code: %s)" % (o["name"], v["desc"], v["what"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    if fresh:
        return 1
    return 2 if inc else 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        print(engine())
        sys.exit(0)
    if a[:1] == ["check"]:
        sys.exit(check(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")))
    if a[:1] == ["harness"]:
        tier = a[2] if len(a) > 2 and not a[2].startswith("-") else "quick"
        o = run_harness(a[1], tier, "-v" in a)
        print(json.dumps({k: v for k, v in o.items() if k != "functions"}))
        sys.exit(0 if o["status"] == "holds" else 1)
    if a[:1] == ["replay"]:
        h = merged(a[1], "quick")
        tmp = tempfile.mkdtemp(prefix="vp_replay_")
        try:
            what, logs = replay(h, tmp, [int(x) for x in open(a[2]).read().split()])
            if what is None and h.get("race"):
                what, logs = replay(h, tmp, [int(x) for x in open(a[2]).read().split()], True)
            print("\n".join(logs))
            print("reproduced: " + what if what else "not reproduced")
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        sys.exit(1 if what else 0)
    print(__doc__)
    sys.exit(64)


main()
