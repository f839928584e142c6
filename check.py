#!/usr/bin/env python3
"""check.py <property> [quick|thorough] -- builds the harness from /repo's working
tree and explores the property's bounded space.  Exit 0: held on everything
explored.  Exit 1 plus a VIOLATION line: broken."""
import json, os, shutil, subprocess, sys, time, hashlib, glob, importlib.util
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(V, "src")
sys.path.insert(0, V)

CXX, CC = "clang++", "clang"
BASE = ["-std=c++17", "-g1", "-w", "-fno-omit-frame-pointer", "-pthread"]
NOEXTERN = os.path.join(SRC, "noextern.h")
VARIANTS = {
    # name: (flags for repository code, flags for harness code, link flags)
    "fast": (["-O2"], ["-O2"], []),
    "rel": (["-O2", "-DNDEBUG"], ["-O2", "-DNDEBUG", "-DVP_NDEBUG"], []),
    "san": (["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
            ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
            ["-fsanitize=address,undefined"]),
    "mc": (["-O1", "-fsanitize=thread", "-include", NOEXTERN, "-fno-builtin-memcmp"], ["-O1"], []),
    "cost": (["-O1", "-fsanitize-coverage=trace-pc", "-include", NOEXTERN, "-fno-builtin-memcmp"], ["-O2", "-include", NOEXTERN], []),
    "relsan": (["-O1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
               ["-O1", "-DNDEBUG", "-DVP_NDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
               ["-fsanitize=address,undefined"]),
}
WRAP = ["memcmp", "malloc", "calloc", "realloc", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_rwlock_rdlock",
        "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "pthread_once", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast"]
COSTWRAP = ["memcpy", "memmove", "memset", "memcmp"]
CLI = ("c15.cc", "c16.cc")      # harnesses that drive the command-line tool
COMMON = ["vp.cc", "ref.cc", "gen.cc", "enc.cc"]

# property: (level, [(variant, source, extra args)], assumptions)
from props import PROPS


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])
    return p.stdout


def repo_sources():
    cc = [f for f in sorted(glob.glob(os.path.join(REPO, "src", "*.cc")))
          if not f.endswith("_test.cc") and os.path.basename(f) != "vcdiff_main.cc"]
    return cc + sorted(glob.glob(os.path.join(REPO, "src", "zlib", "*.c")))


def incdirs():
    return ["-I" + SRC, "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "src", "zlib")]


def build(prop, variant, harness, bdir, extra_common=None):
    rflags, hflags, lflags = VARIANTS[variant]
    od = os.path.join(bdir, variant)
    os.makedirs(od, exist_ok=True)
    jobs, objs = [], []
    for f in repo_sources():
        o = os.path.join(od, "repo_" + os.path.basename(f) + ".o")
        if f.endswith(".c"):
            cmd = [CC, "-g1", "-w", "-fno-omit-frame-pointer"] + rflags + incdirs() + ["-c", f, "-o", o]
        else:
            cmd = [CXX] + BASE + rflags + incdirs() + ["-c", f, "-o", o]
        jobs.append(cmd); objs.append(o)
    common = COMMON
    if variant == "mc":         # controlled scheduler: instrumented code, own runtime
        common = ["vp.cc", "ref.cc", "ctlsched.cc"]
        o = os.path.join(od, "vp_c14body.o")
        jobs.append([CXX] + BASE + rflags + incdirs() + ["-c", os.path.join(SRC, "c14body.cc"), "-o", o]); objs.append(o)
    for f in (common if extra_common is None else extra_common) + (["cli.cc"] if harness in CLI else []) + [harness]:
        o = os.path.join(od, "vp_" + f + ".o")
        jobs.append([CXX] + BASE + hflags + incdirs() + ["-c", os.path.join(SRC, f), "-o", o]); objs.append(o)
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(run, jobs))
    exe = os.path.join(od, harness.replace(".cc", ""))
    if variant == "mc":
        lflags = lflags + ["-Wl,--wrap=" + w for w in WRAP]
    if variant == "cost":
        lflags = lflags + ["-Wl,--wrap=" + w for w in COSTWRAP]
    run([CXX, "-pthread"] + lflags + ["-Wl,--wrap=exit"] + objs + ["-o", exe])
    return exe


def build_cli(variant, bdir):
    """The command-line tool itself, and the fault injector preloaded into it."""
    rflags = VARIANTS[variant][0]
    od = os.path.join(bdir, variant)
    objs = [os.path.join(od, "repo_" + os.path.basename(f) + ".o") for f in repo_sources()]
    o = os.path.join(od, "repo_vcdiff_main.cc.o")
    run([CXX] + BASE + rflags + incdirs() + ["-c", os.path.join(REPO, "src", "vcdiff_main.cc"), "-o", o])
    exe, lib = os.path.join(od, "vcdiff"), os.path.join(od, "fault.so")
    run([CXX, "-pthread", o] + objs + VARIANTS[variant][2] + ["-lgflags", "-o", exe])
    run([CC, "-shared", "-fPIC", "-O1", "-w", os.path.join(SRC, "fault.c"), "-o", lib])
    scratch = os.path.join(bdir, "scratch")
    os.makedirs(scratch, exist_ok=True)
    return {"VP_CLI": exe, "VP_FAULT_LIB": lib, "VP_SCRATCH": scratch}


def merge(total, r):
    for k in ("states", "transitions", "traces"):
        total[k] = total.get(k, 0) + r.get(k, 0)
    total.setdefault("spaces", []).extend(r.get("spaces", []))
    for k, v in r.get("outcomes", {}).items():
        total.setdefault("outcomes", {})
        total["outcomes"][k] = total["outcomes"].get(k, 0) + v
    total.setdefault("samples", []).extend(r.get("samples", []))
    total["exhaustive"] = total.get("exhaustive", True) and r.get("exhaustive", False)


def write_evidence(prop, tier, level, total, assumptions, wall, violations):
    cov = {"states": total.get("states", 0), "transitions": total.get("transitions", 0),
           "traces_validated_against_impl": total.get("traces", 0),
           "samples": total.get("samples", [])[:20] or ["(run ended before a sample was recorded)"],
           "exhaustive": bool(total.get("exhaustive", False)),
           "spaces": total.get("spaces", []), "distinct_outcomes": total.get("outcomes", {})}
    if level == "fault_enumeration":
        cov["evaluations"], cov["distinct_nontrivial"] = cov.pop("traces_validated_against_impl"), cov.pop("states")
        cov["io_calls_executed"] = cov.pop("transitions")
        cov["rule"] = "one execution of the real tool per (run configuration, fault point, kind of fault); non-trivial: the fault actually took effect (or the output was limited); all are distinct by construction"
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": cov, "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def known_findings(prop):
    """Entries 'known: property=<id> match=<substring> | <what fails>' of known_findings.txt."""
    out = []
    try:
        for l in open(os.path.join(V, "known_findings.txt")):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                out.append(l)
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    level, runs, assumptions = PROPS[prop]
    t0 = time.time()
    tag = "%s-%s-%d" % (prop, tier, os.getpid())
    bdir = os.path.join(V, "build", tag)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    rdir = os.path.join(V, "replay")
    os.makedirs(rdir, exist_ok=True)
    total, rc = {}, 0
    budget = 800 if tier == "quick" else 6 * 3600
    try:
        for n, spec in enumerate(runs):
            if callable(spec):
                r = spec(prop, tier, bdir, rdir)      # python-driven part
            else:
                variant, harness, extra = spec[:3]
                exe = build(prop, variant, harness, bdir)
                out, log = os.path.join(bdir, "out%d.json" % n), os.path.join(bdir, "log%d.txt" % n)
                left = int(budget - (time.time() - t0))
                cmd = [exe, "--out", out, "--log", log, "--deadline", str(max(left, 20))] + list(extra)
                if tier == "thorough":
                    cmd.append("--thorough")
                env = dict(os.environ)
                env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=3000:hard_rss_limit_mb=6000:detect_stack_use_after_return=0:handle_abort=1:malloc_context_size=6:quarantine_size_mb=8"
                env["MALLOC_PERTURB_"] = "165"      # reads of uninitialised heap see garbage
                env["UBSAN_OPTIONS"] = "print_stacktrace=1"
                if harness in CLI:
                    env.update(build_cli(variant, bdir))
                p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                try:
                    r = json.load(open(out))
                except Exception:
                    print(p.stdout[-4000:])
                    print("harness produced no result (status %s)" % p.returncode)
                    sys.exit(2)
                for s in r.get("spaces", []):
                    s["build"] = variant
                if r["rc"] not in (0, 1):
                    print(p.stdout[-4000:])
                    sys.exit(2)
                if r["rc"] == 1:
                    v = r["violation"]
                    tail = ""
                    if os.path.exists(log):
                        with open(log, errors="replace") as f:
                            tail = f.read()[-20000:]
                    rp = os.path.join(rdir, "%s-%s-%s-%d.txt" % (prop, variant, v["space"].replace("/", "_").replace(" ", "_"), v["unit"]))
                    with open(rp, "w") as f:
                        f.write("property: %s\nwhat: %s\nbuild: %s  harness: src/%s %s%s\nreplay: python3 %s --replay %s\nspace: %s\nunit: %d\ntier: %s\n\n--- log of the failing execution (last case is the failing one) ---\n%s\n" % (
                            prop, v["what"], variant, harness, " ".join(extra), "", os.path.join(V, "check.py"), rp, v["space"], v["unit"], tier, tail))
                    r["replay"] = rp
                    r["what"] = v["what"]
            merge(total, r)
            if r["rc"] == 1:
                rc = 1
                what, replay = r.get("what", ""), r.get("replay", "")
                break
    except BuildError as e:
        print("BUILD-ERROR\n" + str(e))
        shutil.rmtree(bdir, ignore_errors=True)
        sys.exit(2)
    wall = time.time() - t0
    write_evidence(prop, tier, level, total, assumptions, wall, 1 if rc else 0)
    for k in known_findings(prop):
        print("KNOWN-FINDING: " + k[len("known: "):])
    if rc:
        print("what: " + what[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    else:
        print("OK property=%s tier=%s states=%d transitions=%d traces=%d exhaustive=%s wall=%.1fs" % (
            prop, tier, total.get("states", 0), total.get("transitions", 0), total.get("traces", 0), total.get("exhaustive"), wall))
    shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)


def replay(path):
    info = {}
    for l in open(path):
        if l.startswith("---"):
            break
        if ": " in l:
            k, v = l.rstrip("\n").split(": ", 1)
            info.setdefault(k, v)
    variant = info["build"].split()[0]
    harness = info["build"].split("src/")[1].split()[0]
    bdir = os.path.join(V, "build", "replay-%d" % os.getpid())
    os.makedirs(bdir)
    exe = build(info["property"], variant, harness, bdir)
    cmd = [exe, "--replay", info["space"], info["unit"]] + (["--thorough"] if info.get("tier") == "thorough" else [])
    env = dict(os.environ)
    if harness in CLI:
        env.update(build_cli(variant, bdir))
    rc = subprocess.run(cmd, env=env).returncode
    shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        replay(sys.argv[2])
    main()
