#!/usr/bin/env python3
"""Makes and verifies planted bugs (development aid; not used by checks).

A specification file defines BUGS, a list of dicts: id, property, needs,
breaks, edits [(file, old, new)], and either demo (C++ source of a main()
which returns 0 if all is well) or files {name: text} with a demo.sh.

usage: plant.py SPEC.py [ID...]      verifies, writes seeded/ID
       plant.py --detect ID...       runs the properties' checks on them
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("SCRATCH", "/tmp/s")
R = SCRATCH + "/r"
BASE = "0cb2345"

DEMO_SH = """#!/bin/bash
# Compiles demo.cpp with the library's sources and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
for f in "$here/demo.cpp" src/Ystring/*.cpp; do
    g++ -std=c++20 -O0 FLAGS-w -Iinclude -Isrc/Ystring -c "$f" -o "$tmp/$(basename "$f" .cpp).o" &
done
wait
g++ FLAGS"$tmp"/*.o -o "$tmp/demo" -lpthread
timeout 60 "$tmp/demo"
"""
HEAD = """#include <Ystring/Algorithms.hpp>
#include <Ystring/CaseInsensitive.hpp>
#include <Ystring/CharClass.hpp>
#include <Ystring/CodepointPredicates.hpp>
#include <Ystring/CodepointSet.hpp>
#include <Ystring/ConvertCase.hpp>
#include <Ystring/DecodeUtf8.hpp>
#include <Ystring/Escape.hpp>
#include <Ystring/Normalize.hpp>
#include <Ystring/TokenIterator.hpp>
#include <Ystring/Unescape.hpp>
#include <Ystring/Utf32.hpp>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <string_view>
#include <vector>
using namespace ystring;
using namespace std::literals;
#define CHECK(c) do {if (!(c)) {std::printf("failed: %s\\n", #c); std::exit(1);}} while (0)
"""

def sh(cmd, cwd=None, ok=True, **kw):
    p = subprocess.run(cmd, shell=True, cwd=cwd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       errors='replace', **kw)
    if ok and p.returncode:
        raise RuntimeError("%s\n%s" % (cmd, p.stdout[-3000:]))
    return p

def fresh():
    if not os.path.isdir(R):
        os.makedirs(SCRATCH, exist_ok=True)
        sh("git clone -q /repo %s" % R)
    sh("git checkout -q -f . && git clean -qfd -e _build && git fetch -q && git reset -q --hard origin/HEAD", cwd=R)

def build_and_test():
    env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++")
    sh("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error"
       " -DYSTRING_BUILD_TESTS=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON"
       " -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS -Dcatch_DIR=/opt/vp/cmake && ninja -C _build", cwd=R, env=env)
    p = sh("timeout 120 _build/tests/YstringTest/YstringTest", cwd=R, ok=False)
    return p.returncode == 0, p.stdout

def original_lines(path, numbers):
    out = sh("git blame -s -l HEAD -- %s" % path, cwd=R).stdout.splitlines()
    base = sh("git rev-parse %s" % BASE, cwd=R).stdout.strip()
    return [out[n - 1].lstrip("^")[:39] == base[:39] for n in numbers]

def verify(b):
    d = os.path.join(V, "seeded", b["id"])
    fresh()
    if b.get("files"):
        files = dict(b["files"])
    else:
        flags = b.get("flags", "")
        files = {"demo.cpp": HEAD + b["demo"], "demo.sh": DEMO_SH.replace("FLAGS", flags + " " if flags else "")}
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for n, t in files.items():
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    def demo():
        return sh("bash %s/demo.sh" % d, cwd=R, ok=False)
    problems = []
    p = demo()
    if p.returncode:
        problems.append("demo fails on the unchanged tree: " + p.stdout[-1500:])
    removed = 0
    for path, old, new in b["edits"]:
        full = os.path.join(R, path)
        text = open(full).read()
        if text.count(old) != 1:
            problems.append("%s: %d occurrences of %r" % (path, text.count(old), old))
            continue
        open(full, "w").write(text.replace(old, new))
    diff = sh("git diff -U0", cwd=R).stdout
    path = None
    good = 0
    for line in diff.splitlines():
        m = re.match(r"--- a/(.*)", line)
        if m:
            path = m.group(1)
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m and m.group(2) != "0":
            n = int(m.group(1))
            good += sum(original_lines(path, range(n, n + int(m.group(2) or 1))))
    if not good:
        problems.append("changes no original line")
    with open(os.path.join(d, "patch.diff"), "w") as f:
        f.write(sh("git diff", cwd=R).stdout)
    try:
        ok, out = build_and_test()
        if not ok:
            problems.append("tests fail: " + out[-1200:])
    except RuntimeError as e:
        problems.append("does not build: " + str(e))
    p = demo()
    if p.returncode == 0:
        problems.append("demo passes with the patch")
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
        f.write("\n")
    if problems:
        shutil.rmtree(d)
        print(b["id"], "NOT KEPT", *problems, sep="\n   ")
        return False
    print(b["id"], "ok:", p.stdout.strip().splitlines()[-1:] )
    return True

def detect(ids, extra):
    for i in ids:
        d = os.path.join(V, "seeded", i)
        fresh()
        sh("git apply %s/patch.diff" % d, cwd=R)
        prop = json.load(open(d + "/meta.json"))["property"]
        for pr in extra or [prop]:
            env = dict(os.environ, VERIF_REPO=R, VERIF_BUILD=SCRATCH + "/b")
            p = sh("/usr/bin/time -f 'wall %%e' python3 check.py %s quick --evidence %s/e.json" % (pr, SCRATCH), cwd=V, ok=False, env=env)
            lines = [l for l in p.stdout.splitlines() if re.match("case:|failure:|VIOLATION|wall|shrunk", l)]
            print(i, pr, "CAUGHT" if p.returncode == 1 and "VIOLATION property=%s" % pr in p.stdout else "MISSED rc=%d" % p.returncode)
            for l in lines:
                print("     ", l[:300])
            sys.stdout.flush()
    fresh()

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--detect":
        extra = [x[1:] for x in a[1:] if x.startswith("+")]
        detect([x for x in a[1:] if not x.startswith("+")], extra)
    else:
        g = {}
        exec(open(a[0]).read(), g)
        for b in g["BUGS"]:
            if len(a) == 1 or b["id"] in a[1:]:
                verify(b)
