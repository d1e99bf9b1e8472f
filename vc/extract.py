"""Mechanical extraction of function bodies from the current /repo tree."""
import json, os, subprocess, tempfile, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ASTDUMP = os.path.join(BUILD, "astdump")


def ensure_astdump():
    src = os.path.join(VERIF, "tools/astdump/astdump.cpp")
    if os.path.exists(ASTDUMP) and os.path.getmtime(ASTDUMP) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    subprocess.run(["g++", "-O1", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", ASTDUMP + ".tmp",
                    "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-l:libLLVM.so.18.1"], check=True)
    os.replace(ASTDUMP + ".tmp", ASTDUMP)


def flags(std):
    r = ["-DLOGLEVEL=3"]
    for d in (REPO + "/_build/vp_include",):
        if os.path.isdir(d):
            r.append("-I" + d)
    r += ["-I" + os.path.join(VERIF, "vc/inc"), f"-I{REPO}/third_party/json", f"-I{REPO}/third_party/ctre/include",
          f"-I{REPO}/third_party/abseil-cpp", "-isystem", f"{REPO}/third_party/re2",
          "-include", "cstdint", "-include", "utility", "-DNDEBUG", "-w", "-ferror-limit=0", "-std=" + std]
    return r


class ExtractError(Exception):
    pass


def extract(driver_text, functions, std="gnu++20", allow_missing=False):
    """Parse driver_text (which includes the real sources) and return the
    exported functions."""
    ensure_astdump()
    with tempfile.TemporaryDirectory() as d:
        drv = os.path.join(d, "drv.cpp")
        with open(drv, "w") as f:
            f.write(driver_text.replace("@REPO@", REPO))
        out = os.path.join(d, "o.json")
        p = subprocess.run([ASTDUMP, out, REPO + "/src", ";".join(functions), drv, "--"] + flags(std),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if not os.path.exists(out):
            raise ExtractError("front end failed: " + p.stdout[-2000:])
        d_ = json.load(open(out))
        d_["diagnostics"] = p.stdout[-3000:]
    have = {r["want"] for r in d_["roots"]}
    for f in functions:
        if f not in have and not allow_missing:
            raise ExtractError(f"function {f} not found in the source tree\n" + d_["diagnostics"])
    return d_
