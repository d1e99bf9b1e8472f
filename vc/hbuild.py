"""Building and running the real-code harnesses."""
import json, os, re, shutil, subprocess, tempfile, threading, time
from extract import VERIF, REPO, BUILD

HDIR = os.path.join(VERIF, "harness")
LOCK = threading.Lock()


class BuildError(Exception):
    pass


def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                          errors="replace", **kw)


def build_libs(targets=("engine", "index", "parser", "metaConverter", "rdfEscaping", "SortPerformanceEstimator")):
    """Bring the libraries in /repo/_build (git-ignored) up to date with the tree."""
    b = REPO + "/_build"
    if not os.path.exists(b + "/build.ninja"):
        p = sh(["bash", "/opt/vp/build.sh"], 900)
    else:
        p = sh(["ninja", "-C", b, "-j8"] + list(targets), 900)
    if p.returncode != 0:
        raise BuildError("building the libraries failed\n" + p.stdout[-3000:])


def link_libs():
    b = REPO + "/_build"
    txt = open(b + "/build.ninja").read()
    m = re.search(r"build test/MultiColumnJoinTest:.*?LINK_LIBRARIES = ([^\n]*)", txt, re.S)
    out = []
    for l in m.group(1).split():
        if "gtest" in l:
            continue
        out.append(b + "/" + l if l.startswith("lib/") else l)
    if not any("metaConverter" in l for l in out):
        out.insert(0, b + "/lib/libmetaConverter.a")
    return out


BASE = ["-std=gnu++20", "-fopenmp", "-include", "cstdint", "-include", "utility", "-fno-access-control", "-w",
        "-DLOGLEVEL=0", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS"]
SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=undefined",
       "-fno-omit-frame-pointer"]
OPT = ["-O1"]
TSAN = ["-O1", "-g1", "-fsanitize=thread"]


def incs():
    return ["-I" + HDIR, f"-I{REPO}/src", f"-I{REPO}/_build/vp_include", f"-I{REPO}/third_party/json",
            f"-I{REPO}/third_party/ctre/include", f"-I{REPO}/third_party/abseil-cpp", "-isystem",
            f"{REPO}/third_party/re2"]


def paths(name, variant):
    d = os.path.join(BUILD, "h")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, f"{name}-{variant}")


def compile_harness(name, variant):
    """Compile harness/<name>.cpp against the current tree."""
    exe = paths(name, variant)
    src = open(os.path.join(HDIR, name + ".cpp")).read().replace("@REPO@", REPO)
    extra = re.findall(r"^// flags: (.*)$", src, re.M)
    extra = extra[0].split() if extra else []
    with open(exe + ".cpp", "w") as f:
        f.write(src)
    mode = SAN if variant in ("san", "solosan") else TSAN if variant == "solotsan" else OPT + ["-DPLAIN"]
    cmd = ["g++"] + BASE + mode + extra + incs() + \
          [exe + ".cpp", "-c", "-o", exe + ".o"]
    p = sh(cmd, 850)
    if p.returncode != 0:
        errs = [l for l in p.stdout.splitlines() if "error" in l][:12]
        raise BuildError(f"harness {name} ({variant}) does not compile\n" + "\n".join(errs) + "\n" + p.stdout[-2000:])
    return exe


def link_harness(name, variant):
    exe = paths(name, variant)
    cmd = ["g++", "-fopenmp"] + (["-fsanitize=address,undefined"] if variant in ("san", "solosan") else ["-fsanitize=thread"] if variant == "solotsan" else []) + [exe + ".o", "-o", exe]
    if variant.startswith("solo"):  # needs none of the project's libraries
        cmd += re.findall(r"-l\S+", "".join(re.findall(r"^// link: (.*)$", open(exe + ".cpp").read(), re.M))) + ["-lpthread"]
    else:
        cmd += link_libs() + ["-lpthread"]
    p = sh(cmd, 600)
    if p.returncode != 0 and variant.startswith("solo"):
        p = sh(cmd + [l for l in link_libs() if "absl" in l], 600)  # not built from the tree's own sources
    if p.returncode != 0 and variant.startswith("solo"):
        build_libs()
        p = sh(cmd + link_libs(), 600)
    if p.returncode != 0:
        raise BuildError(f"harness {name} ({variant}) does not link\n" + p.stdout[-4000:])
    return exe


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allow_user_poisoning=0:detect_container_overflow=0:abort_on_error=0:exitcode=4:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=1", TSAN_OPTIONS="halt_on_error=1:exitcode=4", OMP_NUM_THREADS="2", LC_ALL="C.UTF-8")


def run_harness(exe, seed, thorough, jobs=4, suites=None, scale=1.0, timeout=600, budget=None, extra=(), known=()):
    """Run all suites; returns dict(evaluations, distinct, suites, failures=[text])."""
    procs = []
    tmp = tempfile.mkdtemp(prefix="vh")
    for s in range(jobs):
        out = f"{exe}.{s}.json"
        if os.path.exists(out):
            os.unlink(out)
        log = open(f"{exe}.{s}.log", "w")
        cmd = [exe, "--seed", str(seed), "--slice", str(s), "--slices", str(jobs), "--out", out, "--scale", str(scale)]
        cmd += list(extra)
        if thorough:
            cmd.append("--thorough")
        if suites:
            cmd += ["--suite", suites]
        procs.append((s, out, log, subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=dict(ENV, VH_TMP=tmp, VH_KNOWN="\x1e".join(known)), cwd=tmp)))
    failures, merged, timed, seen = [], {}, False, set()
    end = time.time() + timeout
    for s, out, log, p in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            timed = True
        log.close()
        txt = open(log.name, errors="replace").read()
        seen |= {l[6:] for l in txt.splitlines() if l.startswith("KNOWN ")}
        if "FATAL: ThreadSanitizer" in txt:  # cannot run on this kernel
            timed = True
            continue
        if p.returncode not in (0,) and not (p.returncode == -9 and timed):
            failures.append(txt[-12000:])
        if os.path.exists(out):
            try:
                parts = json.load(open(out))
            except ValueError:  # the run ended while writing
                parts = []
                if p.returncode == 0:
                    failures.append("no results\n" + txt[-12000:])
            for r in parts:
                m = merged.setdefault(r["suite"], dict(suite=r["suite"], rule=r["rule"], exhaustive=r["exhaustive"],
                                                       evaluations=0, distinct=0, sample=""))
                m["evaluations"] += r["evaluations"]
                m["distinct"] += r["distinct"]
                m["sample"] = m["sample"] or r["sample"]
    shutil.rmtree(tmp, ignore_errors=True)
    return dict(suites=list(merged.values()), failures=failures, timed_out=timed, known=seen)
