#!/usr/bin/env python3
"""Builds and runs the check of one property.

usage: check.py ID [quick|thorough] [--replay FILE] [--seed N] [--scale X]
                   [--seconds N] [--workers N]
       check.py --setup          (compiles everything ahead)
The tier may also come from VERIF_TIER, the seed from VERIF_SEED.
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"

FILES = {}
for _ids, _f in ((("C01", "C02", "C03", "C04"), "prop_codec.cpp"),
                 (("C05", "C06", "C07", "C08"), "prop_unicode.cpp"),
                 (("C09", "C10", "C11", "C12"), "prop_index.cpp"),
                 (("C13", "C14", "C15", "C17"), "prop_search.cpp"),
                 (("C16", "C18"), "prop_split.cpp"),
                 (("C19", "C20"), "prop_ci.cpp"),
                 (("C21", "C22", "C23"), "prop_escape.cpp"),
                 (("C24", "C27"), "prop_robust.cpp"),
                 (("C25",), "prop_history.cpp"),
                 (("C28",), "prop_growth.cpp"),
                 (("C29", "C30"), "prop_misc.cpp"),
                 (("C31",), "prop_huge.cpp"),
                 (("C32",), "prop_faults.cpp"),
                 (("C33",), "prop_variants.cpp")):
    for _id in _ids:
        FILES[_id] = _f

KIND = {"C31": "fast", "C27": "plain", "C28": "count", "C33": "plain"}  # how they are built

BASE = ["-std=c++20", "-O1", "-g1", "-pipe", "-Wall", "-Wextra"]
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute",
             "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS",
             "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread"],
    # For C27, which needs many processes; C24 makes the same calls with asan.
    "plain": ["-D_GLIBCXX_ASSERTIONS"],
    # For C28, which counts what is executed.
    "count": ["-D_GLIBCXX_ASSERTIONS", "-U_FORTIFY_SOURCE"],
}
SAN["fast"] = ["-O2"]                        # for C31
# For C33: other ways to build the library.
VARIANTS = {
    "gcc-O0-unsigned-char": ["-O0", "-funsigned-char", "-D_GLIBCXX_ASSERTIONS"],
    "gcc-O3": ["-O3", "-DNDEBUG"],
    "clang-O2": ["-O2", "-DNDEBUG", "-ftrivial-auto-var-init=pattern"],
    "clang-O1-unsigned-char": ["-funsigned-char"],
}
SAN.update(VARIANTS)
COV = ["-fsanitize-coverage=trace-pc,trace-cmp"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, **kw)
    if p.returncode:
        sys.stdout.write(p.stdout[:3000])
        raise BuildError(" ".join(cmd))
    return p.stdout


def digest(paths, *extra):
    h = hashlib.sha256()
    for e in extra:
        h.update(repr(e).encode())
    for p in paths:
        h.update(os.path.relpath(p, "/").encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def repo_files():
    r = [os.path.join(REPO, "CMakeLists.txt")]
    for top in ("include", "src"):
        for d, _, names in os.walk(os.path.join(REPO, top)):
            r += [os.path.join(d, n) for n in names
                  if n.endswith((".hpp", ".cpp", ".h", ".in", ".txt", ".inl", ".ipp"))]
    return sorted(r)


def headers():
    return sorted(glob.glob(os.path.join(HARNESS, "*.hpp")))


def harness_object(name, san, defines=()):
    src = os.path.join(HARNESS, name)
    # The harness itself is not instrumented, except for races.
    if san in VARIANTS:
        san = "plain"
    flags = BASE + (["-O2"] if san == "asan" else SAN[san]) + list(defines)
    key = digest(headers() + [src], flags)
    out = os.path.join(BUILD, "obj", "%s-%s-%s.o" % (name[:-4], san, key))
    if not os.path.exists(out):
        tmp = out + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        run([CXX] + flags + ["-c", src, "-o", tmp])
        os.rename(tmp, out)
    return out


def library(san):
    """Builds the library (through its own CMake file) and api.cpp."""
    flags = ["-O1", "-g1"] + SAN[san] + (COV if san in ("asan", "count") else [])
    files = repo_files()
    key = digest(files + headers() + [os.path.join(HARNESS, "api.cpp")], flags)
    d = os.path.join(BUILD, "lib-%s-%s" % (san, key))
    lib, api = os.path.join(d, "libYstring.a"), os.path.join(d, "api.o")
    if os.path.exists(os.path.join(d, "ok")):
        return lib, api, key
    for old in glob.glob(os.path.join(BUILD, "lib-%s-*" % san)):
        shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d)
    clang = san.startswith("clang")
    env = dict(os.environ, CC="clang" if clang else "gcc", CXX="clang++" if clang else "g++")
    run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=",
         "-DYSTRING_BUILD_TESTS=OFF", "-DYSTRING_INSTALL=OFF",
         "-DCMAKE_EXPORT_NO_PACKAGE_REGISTRY=ON",
         "-DCMAKE_TRY_COMPILE_TARGET_TYPE=STATIC_LIBRARY",
         "-DCMAKE_CXX_FLAGS=" + " ".join(flags)], env=env)
    with concurrent.futures.ThreadPoolExecutor() as ex:
        a = ex.submit(run, ["ninja", "-C", d, "Ystring"])
        b = ex.submit(run, [env["CXX"]] + BASE + flags
                      + ["-I", os.path.join(REPO, "include"), "-I", d, "-c",
                         os.path.join(HARNESS, "api.cpp"), "-o", api])
        a.result()
        b.result()
    open(os.path.join(d, "ok"), "w").close()
    return lib, api, key


def binary(prop_file, san):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor() as ex:
        names = ["engine.cpp", "model.cpp", "gen.cpp", prop_file]
        objs = [ex.submit(harness_object, n, san) for n in names]
        lib = ex.submit(library, san)
        objs = [o.result() for o in objs]
        lib, api, key = lib.result()
    out = os.path.join(BUILD, "bin", "%s-%s-%s" % (
        prop_file[:-4], san, digest(objs + [lib, api])))
    if not os.path.exists(out):
        for old in glob.glob(os.path.join(BUILD, "bin", "%s-%s-*" % (prop_file[:-4], san))):
            os.unlink(old)
        tmp = out + ".%d.tmp" % os.getpid()
        wrap = (["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"] if prop_file == FILES["C32"] else [])
        run([CXX] + SAN[san] + wrap + ["-o", tmp, api, lib] + objs + ["-lpthread"])
        os.rename(tmp, out)
    return out


def dictionary(path):
    """Integer and character constants in the library's sources."""
    values = set()
    for f in repo_files():
        if f.endswith("Tables.hpp") or f.endswith("CMakeLists.txt"):
            continue
        text = open(f, encoding="utf-8", errors="replace").read()
        text = re.sub(r"//[^\n]*|/\*.*?\*/", "", text, flags=re.S)
        for m in re.finditer(r"\b(0[xX][0-9A-Fa-f']+|\d[\d']*)[uUlLzZ]*\b", text):
            t = m.group(1).replace("'", "")
            try:
                v = int(t, 0 if t.lower().startswith("0x") else 10)
            except ValueError:
                continue
            values.update(x for x in (v - 1, v, v + 1) if 0 <= x < 1 << 64)
        for m in re.finditer(r"'(\\?.)'|'\\[xuU]([0-9A-Fa-f]+)'", text):
            g = m.group(1)
            if m.group(2):
                values.add(int(m.group(2), 16))
            elif len(g) == 1:
                values.add(ord(g))
        for m in re.finditer(r"[uU]8?\"((?:[^\"\\]|\\.)*)\"|\\[uU]([0-9A-Fa-f]{4,8})", text):
            if m.group(2):
                values.add(int(m.group(2), 16))
            else:
                values.update(ord(c) for c in m.group(1))
    with open(path, "w") as f:
        for v in sorted(values)[:5000]:
            f.write("%d\n" % v)


def environment(prop):
    env = dict(os.environ)
    env["PBT_PROPERTY"] = prop
    env["VERIF_UNICODE"] = os.path.join(VERIF, "data", "unicode16.txt")
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:"
                           "allocator_may_return_null=0:max_allocation_size_mb=2000:"
                           "quarantine_size_mb=8:detect_stack_use_after_return=0:"
                           "malloc_context_size=6:symbolize=1:handle_abort=1:"
                           "detect_container_overflow=1:"
                           "max_malloc_fill_size=4096")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    env["TSAN_OPTIONS"] = "exitcode=77:halt_on_error=1:report_signal_unsafe=0"
    return env


def options(argv):
    o = {"tier": os.environ.get("VERIF_TIER", "quick"), "replay": None,
         "seed": os.environ.get("VERIF_SEED", "1"), "scale": "1",
         "seconds": None, "workers": str(min(8, os.cpu_count() or 8)),
         "evidence": None}
    i = 0
    while i < len(argv):
        if argv[i] in ("quick", "thorough"):
            o["tier"] = argv[i]
            i += 1
        else:
            o[argv[i].lstrip("-")] = argv[i + 1]
            i += 2
    return o


def run_engine(prop, o, exe, evidence, name, seconds):
    out = os.path.join(BUILD, "run", "%s.%d" % (name, os.getpid()))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    replays = os.path.join(VERIF, "replays")
    dictionary(os.path.join(out, "dict"))
    cmd = [exe, "--out", out, "--seed", o["seed"], "--tier", o["tier"],
           "--workers", o["workers"], "--seconds", str(seconds), "--scale", o["scale"],
           "--dict", os.path.join(out, "dict"), "--replays", replays]
    cmd += ["--replay", o["replay"]] if o["replay"] else ["--evidence", evidence]
    sys.stdout.flush()
    p = subprocess.run(cmd, env=environment(prop))
    shutil.rmtree(out, ignore_errors=True)
    return p.returncode if p.returncode in (0, 1) else 2


def servers():
    with concurrent.futures.ThreadPoolExecutor() as ex:
        exes = [(v, ex.submit(binary, FILES["C33"], v)) for v in VARIANTS]
        os.environ["PBT_SERVERS"] = ":".join("%s=%s" % (v, e.result()) for v, e in exes)


def cpp_check(prop, o):
    evidence = o["evidence"] or os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if prop == "C31" and o["tier"] == "quick":
        o["seconds"] = o["seconds"] or "400"
    seconds = float(o["seconds"] or ("100" if o["tier"] == "quick" else "600"))
    if prop != "C27":
        exe = binary(FILES[prop], KIND.get(prop, "asan"))
        if prop == "C33":
            servers()
        return run_engine(prop, o, exe, evidence, prop, seconds)

    # Two programs: histories in processes, and threads.
    if o["replay"]:
        text = open(o["replay"]).read()
        if re.search("^# failure: .*threads: ", text, re.M):
            return run_engine(prop, o, binary("threads.cpp", "tsan"), evidence, prop, seconds)
        return run_engine(prop, o, binary(FILES[prop], "plain"), evidence, prop, seconds)
    exe = binary(FILES[prop], "plain")
    exe2 = binary("threads.cpp", "tsan")
    rc = run_engine(prop, o, exe, evidence, prop, seconds / 2)
    if rc:
        return rc
    second = evidence + ".threads"
    rc = run_engine(prop, o, exe2, second, prop + "t", seconds / 2)
    with open(evidence) as f:
        e = json.load(f)
    with open(second) as f:
        t = json.load(f)
    os.unlink(second)
    c, d = e["coverage"], t["coverage"]
    e["coverage"] = {
        "evaluations": c["evaluations"] + d["evaluations"],
        "distinct_nontrivial": c["distinct_nontrivial"] + d["distinct_nontrivial"],
        "rule": c["rule"] + " Threads: " + d["rule"],
        "samples": c["samples"] + d["samples"],
        "histories": c, "threads": d}
    e["wall_s"] += t["wall_s"]
    e["violations"] += t["violations"]
    with open(evidence, "w") as f:
        json.dump(e, f, indent=1)
    return rc


def main(argv):
    if argv[0] == "--setup":
        for f, k in sorted(set((f, KIND.get(p, "asan")) for p, f in FILES.items())):
            binary(f, k)
        binary("threads.cpp", "tsan")
        servers()
        return 0
    prop, o = argv[0], options(argv[1:])
    if prop == "C26":
        sys.path.insert(0, HARNESS)
        import tables
        return tables.check(o, VERIF, REPO, BUILD)
    return cpp_check(prop, o)


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except BuildError as e:
        print("build failed: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
