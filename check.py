#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] | check.py --replay FILE

Builds the simulator, the sources of /repo's working tree and the harness of one property, explores
every case of the harness, and writes evidence/PROPERTY.json. Exit 0: the property held on
everything explored; 1: violation (and a VIOLATION line); 3: the check itself failed."""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, VERIF)
from props import PROPS

SRC_DIRS = ["pcu", "pcu/reel", "pcu/noto", "support", "agi", "partition", "partition/Metrics",
            "partition/Diffusive", "partition/Diffusive/src", "partition/Multilevel",
            "partition/Coloring", "interfaces"]
INC_DIRS = ["pcu", "pcu/reel", "pcu/noto", "support", "agi", "interfaces", "partition",
            "partition/Metrics", "partition/Diffusive", "partition/Diffusive/src",
            "partition/Multilevel", "partition/Coloring"]
# needs PUMI (not installed), or generated by cmake (a stub is compiled instead)
EXCLUDE = {"apfGraph.cpp", "dofGraph.cpp", "engpar_version.cpp"}
DEFS = ["-DLOCAL_ID_TYPE=int32_t", "-DLOCAL_ID_FTYPE=C_INT32_T", "-DHAS_PARMETIS", "-DHAS_ZOLTAN",
        "-DENGPAR_HAS_MALLINFO2"]
CXXFLAGS = ["-fPIC", "-fno-gnu-unique", "-w", "-fstack-protector-strong"]


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-3000:])


def cmake_text(d):
    t = ""
    for x in (d, os.path.dirname(d)):
        f = os.path.join(REPO, x, "CMakeLists.txt")
        if os.path.exists(f):
            t += open(f).read()
    return t


def sources():
    out = []
    for d in SRC_DIRS:
        names = cmake_text(d)
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.c")) + glob.glob(os.path.join(REPO, d, "*.cpp")) + glob.glob(os.path.join(REPO, d, "*.cc"))):
            b = os.path.basename(f)
            if b in EXCLUDE or b not in names:
                continue
            out.append(f)
    return out


def build_objects(work, asan, extra=()):
    """Compile the simulator and the repository; returns (mc executable, list of objects)."""
    os.makedirs(work + "/obj", exist_ok=True)
    inc = ["-I" + VERIF + "/sim/include", "-I" + VERIF + "/harness"] + ["-I" + os.path.join(REPO, d) for d in INC_DIRS] + ["-I/usr/include/trilinos"]
    san = ["-fsanitize=address", "-fsanitize=bounds,integer-divide-by-zero", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"] if asan else []
    ver = work + "/engpar_version_stub.cpp"
    with open(ver, "w") as f:
        f.write("#include <engpar_version.h>\nconst char* engpar_version() { return \"mc\"; }\n")
    cov = ["-DMC_COVERAGE"] if os.environ.get("MC_COVFILE") else []
    if cov:
        extra = list(extra) + ["-fsanitize-coverage=trace-pc", "-g1"]
    jobs, objs = [], []
    mcexe = work + "/mc"
    jobs.append(["g++", "-std=c++17", "-O2", "-w", "-fvisibility=hidden", "-I" + VERIF + "/sim/include", "-rdynamic"] + cov + san + [VERIF + "/sim/mc.cpp", "-o", mcexe, "-ldl"])
    for i, s in enumerate(sources() + [ver, VERIF + "/sim/ext_stubs.cpp"]):
        o = "%s/obj/%03d_%s.o" % (work, i, os.path.basename(s))
        objs.append(o)
        cc = ["gcc", "-std=gnu11"] if s.endswith(".c") else ["g++", "-std=c++11"]
        jobs.append(cc + ["-O1"] + CXXFLAGS + DEFS + list(extra) + inc + san + ["-c", s, "-o", o])
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        list(ex.map(run, jobs))
    return mcexe, objs, inc, san


def build_fortran(work, files):
    """Objects of the Fortran sources (R:path in the repository, otherwise a harness), in order."""
    out = []
    if files:
        os.makedirs(work + "/obj", exist_ok=True)
    for i, f in enumerate(files):
        src = os.path.join(REPO, f[2:]) if f.startswith("R:") else VERIF + "/harness/" + f
        o = "%s/obj/f%02d.o" % (work, i)
        run(["gfortran", "-cpp", "-O1", "-fPIC", "-w", "-J", work + "/obj", "-I" + REPO + "/agi"] + DEFS + ["-c", src, "-o", o])
        out.append(o)
    return out


def build_harness(work, name, objs, inc, san, tag, defs=()):
    lib = "%s/%s_" % (work, tag)
    ho = "%s/%s.o" % (work, tag)
    run(["g++", "-std=c++17", "-O1"] + CXXFLAGS + DEFS + list(defs) + inc + san + ["-c", VERIF + "/harness/" + name, "-o", ho])
    so = lib + "0.so"
    run(["g++", "-shared"] + san + ["-Wl,-Bsymbolic", "-o", so, ho] + objs + ["-Wl,--allow-shlib-undefined", "-lm"])
    for i in range(1, 18):
        shutil.copyfile(so, lib + "%d.so" % i)
    return lib


def load_known(pid):
    keys, fixed = [], []
    f = VERIF + "/known-findings.txt"
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=\"([^\"]*)\" (.*)", line)
            if m and m.group(1) == pid:
                keys.append((m.group(2), m.group(3)))
    return keys


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 3
    replay = None
    if sys.argv[1] == "--replay":
        replay = sys.argv[2]
        pid = None
        for line in open(replay):
            if line.startswith("property "):
                pid = line.split()[1]
            if line.startswith("harness "):
                hidx = int(line.split()[1])
        tier = "quick"
    else:
        pid = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = PROPS[pid]
    t0 = time.time()
    base = os.environ.get("MC_WORK")
    keep = base is not None
    work = base or tempfile.mkdtemp(prefix="mc-" + pid + "-", dir="/tmp")
    try:
        os.makedirs(work, exist_ok=True)
        return check(pid, tier, spec, work, t0, replay, locals().get("hidx", 0))
    except BuildError as e:
        print("check %s: build failed\n%s" % (pid, e))
        return 3
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)


def check(pid, tier, spec, work, t0, replay, hidx):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    known = load_known(pid)
    results, built = [], {}
    env = dict(os.environ)
    env["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
    env["ASAN_OPTIONS"] = "detect_leaks=0:detect_stack_use_after_return=0:detect_odr_violation=0:handle_segv=1:abort_on_error=1:alloc_dealloc_mismatch=0:quarantine_size_mb=16:malloc_fill_byte=90:max_malloc_fill_size=4096"
    for k in list(env):
        if k.startswith("OMPI_"):
            del env[k]
    total_fail = 0
    nominal = int(os.environ.get("MC_WORKERS", str(os.cpu_count() or 8)))
    libs = {}
    for i, h in enumerate(spec["harness"]):
        if replay and i != hidx:
            continue
        if os.environ.get("MC_ONLY") and str(i) not in os.environ["MC_ONLY"].split(","):
            continue
        if h.get("tier", tier) != tier and not replay:
            continue
        asan = h.get("asan", False)
        key = (asan,)
        if key not in built:
            w = work + ("/asan" if asan else "/plain")
            built[key] = (w,) + build_objects(w, asan)
        w, mcexe, objs, inc, san = built[key]
        if i not in libs:
            todo = [(j, g) for j, g in enumerate(spec["harness"]) if j >= i and g.get("asan", False) == asan and not replay and not os.environ.get("MC_ONLY") and g.get("tier", tier) == tier] or [(i, h)]
            with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
                made = ex.map(lambda jg: (jg[0], build_harness(w, jg[1]["src"], objs + build_fortran(w + "/f%d" % jg[0], jg[1].get("fortran", [])), inc, san, "h%d" % jg[0], jg[1].get("defs", []))), todo)
                libs.update(made)
        lib = libs[i]
        out = "%s/out%d.json" % (work, i)
        scratch = "%s/scratch%d" % (work, i)
        os.makedirs(scratch, exist_ok=True)
        if os.path.exists(out):
            os.remove(out)
        cmd = [mcexe, "--lib", lib, "--out", out, "--workers", str(nominal), "--scratch", scratch]
        if tier == "thorough":
            cmd.append("--thorough")
        opt = h.get("options", {})
        for k in ("stride", "max-deviations", "policies"):
            v = opt.get(k)
            if isinstance(v, dict):
                v = v.get(tier)
            if v is not None:
                cmd += ["--" + k, str(v)]
        if opt.get("memory-only"):
            cmd.append("--memory-only")
        if os.environ.get("MC_MAXFAIL"):
            cmd += ["--max-failures", os.environ["MC_MAXFAIL"]]
        for kk, _ in known:
            cmd += ["--known", kk]
        if os.environ.get("MC_CASE"):
            cmd += ["--case", os.environ["MC_CASE"]]
        if replay:
            r = subprocess.run(cmd + ["--replay", os.path.abspath(replay)], env=env)
            return r.returncode
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if not os.path.exists(out):
            print("check %s: the explorer failed (%d)\n%s" % (pid, p.returncode, p.stdout[-2000:]))
            return 3
        r = json.load(open(out))
        r["src"] = h["src"]
        r["asan"] = asan
        r["index"] = i
        results.append(r)
        if r["internal"]:
            print("check %s: internal error: %s" % (pid, r["internal"]))
            return 3
        total_fail += len(r["failures"])
        if total_fail and not os.environ.get("MC_ALL"):
            break
    if replay:
        return 3
    S = lambda k: sum(r[k] for r in results)
    cov = {
        "states": S("states_sched") + S("states_model"),
        "transitions": S("mpi_calls") + S("operations"),
        "traces_validated_against_impl": S("traces"),
        "samples": [s for r in results for s in r["samples"]],
        "executions": S("executions"),
        "cases": S("cases"),
        "distinct_scheduler_states": S("states_sched"),
        "distinct_model_states": S("states_model"),
        "mpi_calls": S("mpi_calls"),
        "model_operations": S("operations"),
        "messages": S("messages"),
        "choice_points": S("choice_points"),
        "executions_pruned_on_repeated_state": S("pruned"),
        "choice_points_beyond_bound": S("bound_cut"),
        "max_choice_points_in_an_execution": max([r["max_choice_points"] for r in results] or [0]),
        "max_deviations": max([r["max_deviations"] for r in results] or [0]),
        "explored_completely_within_bounds": all(r["complete"] for r in results) and total_fail == 0,
        "unconfirmed_failures": S("unconfirmed"),
        "unconfirmed_message": "; ".join(r["unconfirmed_msg"] for r in results if r["unconfirmed_msg"]),
        "bounds": spec.get("bounds", ""),
        "harnesses": [{k: r[k] for k in ("src", "asan", "cases", "executions", "states_sched", "states_model", "operations", "traces", "ignored", "complete", "wall_s")} for r in results],
        "known_findings_hit": [k for r in results for k in r["known"]],
        "exhaustive": all(r["complete"] for r in results) and total_fail == 0,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": total_fail}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(VERIF + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
    for k, what in known:
        hits = [x for r in results for x in r["known"] if x["key"] == k]
        print("KNOWN-FINDING: property=%s %s%s" % (pid, what, "" if hits else " (not hit in this run)"))
    print("%s %s: %d cases, %d executions, %d states, %d transitions, %d traces validated, %.1f s" % (pid, tier, cov["cases"], cov["executions"], cov["states"], cov["transitions"], cov["traces_validated_against_impl"], ev["wall_s"]))
    if total_fail:
        os.makedirs(VERIF + "/replays", exist_ok=True)
        for r in results:
            for n, fl in enumerate(r["failures"]):
                path = "%s/replays/%s-%s-%d.txt" % (VERIF, pid, r["src"].replace(".cpp", ""), n)
                with open(path, "w") as f:
                    f.write("property %s\nharness %d\nthorough %d\ncase %d\npolicy %d\n" % (pid, r["index"], tier == "thorough", fl["case"], fl["policy"]))
                    for d in fl["devs"]:
                        f.write("dev %d %d\n" % tuple(d))
                    f.write("# %s\n# schedule %s\n# %s\n# replay with: python3 /verif/check.py --replay %s\n" % (fl["describe"].replace("\n", "\n# "), fl["schedule"], fl["message"].replace("\n", "\n# "), path))
                print("case: %s\nschedule: %s, deviations %s\nfailed: %s" % (fl["describe"], fl["schedule"], fl["devs"], fl["message"]))
                print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if not all(r["complete"] for r in results):
        if all(r["complete"] or r["stopped_early"] for r in results):
            print("check %s: a harness was stopped early (executions without end, which other properties judge)" % pid)
            return 0
        print("check %s: the exploration did not complete" % pid)
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
