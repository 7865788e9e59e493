"""C26: the table generator scripts, driven by synthetic UnicodeData files.

A case is a UnicodeData file (made of random structures, or the real file
changed at random). make_files.sh turns it into tables, the library's sources
which include them are compiled, and every lookup is compared with the file.
"""
import array
import concurrent.futures
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

CLASSES = ["Lu", "Ll", "Lt", "Lm", "Lo", "Mn", "Mc", "Me", "Nd", "Nl", "No",
           "Pc", "Pd", "Ps", "Pe", "Pi", "Pf", "Po", "Sm", "Sc", "Sk", "So",
           "Zs", "Zl", "Zp", "Cc", "Cf", "Cs", "Co"]
CLASS_BIT = {c: 1 << i for i, c in enumerate(CLASSES)}
UNASSIGNED = 1 << 29
MAX = 0x10FFFF


class BuildError(Exception):
    pass


# ------------------------------------------------------------------ the file
# An entry is [first, last, class, decomposition, upper, lower, title]; it is
# a First/Last range if last is not None.

def parse(text):
    entries = []
    pending = None
    for line in text.splitlines():
        p = line.split(";")
        if len(p) < 15:
            continue
        cp = int(p[0], 16)
        if p[1].endswith(", First>"):
            pending = cp
            continue
        maps = [int(x, 16) if x.strip() else None for x in p[12:15]]
        if p[1].endswith(", Last>"):
            entries.append([pending, cp, p[2], p[5]] + maps)
        else:
            entries.append([cp, None, p[2], p[5]] + maps)
    return entries


def text_of(entries):
    lines = []

    def line(cp, name, e):
        m = ["%04X" % x if x is not None else "" for x in e[4:7]]
        lines.append("%04X;%s;%s;0;L;%s;;;;N;;;%s" % (cp, name, e[2], e[3], ";".join(m)))
    for i, e in enumerate(entries):
        if e[1] is None:
            line(e[0], "SYNTHETIC %d" % i, e)
        else:
            line(e[0], "<Synthetic %d, First>" % i, e)
            line(e[1], "<Synthetic %d, Last>" % i, e)
    return "\n".join(lines) + "\n"


class Expected:
    def __init__(self, entries):
        n = MAX + 1
        self.classes = array.array("I", [UNASSIGNED]) * n
        ident = array.array("I", range(n))
        self.maps = [ident[:], ident[:], ident[:]]
        self.pairs = {}
        for e in entries:
            bit = CLASS_BIT[e[2]]
            if e[1] is None:
                self.classes[e[0]] = bit
            else:
                self.classes[e[0]:e[1] + 1] = array.array("I", [bit]) * (e[1] + 1 - e[0])
            for k in range(3):
                if e[4 + k] is not None:
                    self.maps[k][e[0]] = e[4 + k]
            if e[3] and e[3][0] != "<":
                v = [int(x, 16) for x in e[3].split()]
                if len(v) == 2:
                    self.pairs[e[0]] = tuple(v)
        self.compose = {v: k for k, v in self.pairs.items()}

    def decompose(self, cp):
        tail = []
        while cp in self.pairs:
            cp, b = self.pairs[cp]
            tail.append(b)
        return [cp] + tail[::-1]

    def queries(self, rng):
        q = []
        for a, b in list(self.compose)[:4000]:
            q += [(a, b), (b, a), (a, b + 1), (a + 1, b), (a, b - 1)]
        keys = list(self.compose)
        for _ in range(500):
            if keys:
                q.append((rng.choice(keys)[0], rng.choice(keys)[1]))
        return [(a, b) for a, b in q if 0 < a <= MAX and 0 < b <= MAX]


# ---------------------------------------------------------------- generation
def snap(rng, cp):
    r = rng.random()
    if r < 0.25:
        return (cp | 31) + rng.choice([0, 1, 1, 2])
    if r < 0.27:
        return (cp | 0xFFFF) + rng.choice([-1, 0, 1])
    return cp


def gap(rng):
    r = rng.random()
    if r < 0.45:
        return 0
    if r < 0.75:
        return rng.randint(1, 3)
    if r < 0.9:
        return rng.randint(4, 70)
    if r < 0.99:
        return rng.randint(70, 3000)
    return rng.randint(3000, 200000)


def mapping(rng, cps):
    """Returns {cp: target} for (some of) the code points."""
    r = rng.random()
    if r < 0.3:
        return {}
    if r < 0.65:
        d = rng.choice([1, -1, 16, 32, -32, 48, 40, -40, 0x1C60, -0x1C60, 0, -128, 80,
                        rng.randint(-5000, 5000), rng.randint(-300000, 300000)])
        part = rng.choice([1, 1, 1, 0.9, 0.5, 0.1])
        m = {c: c + d for c in cps if rng.random() < part}
        if rng.random() < 0.4:
            d2 = rng.choice([1, -1, d + 1, rng.randint(-2000, 2000)])
            for c in list(m):
                if rng.random() < 0.15:
                    m[c] = c + d2
        return {c: t for c, t in m.items() if 0 <= t <= MAX}
    if r < 0.85:
        k = rng.randint(0, 1)
        return {c: c + 1 for c in cps if (c & 1) == k and c < MAX} if rng.random() < 0.5 \
            else {c: c - 1 for c in cps if (c & 1) == k}
    return {c: rng.randint(0, MAX) for c in cps if rng.random() < 0.3}


def synthetic(rng, ascii_part):
    entries = [list(e) for e in ascii_part]
    cp = 0x80
    n = rng.choice([5, 20, 60, 150])
    palette = rng.sample(CLASSES, rng.randint(2, 6)) + ["Lu", "Ll"]
    last_class = "Cc"
    for _ in range(n):
        cp = snap(rng, cp + gap(rng))
        if cp > MAX:
            break
        kind = rng.random()
        new = []
        if kind < 0.15:
            c = last_class if rng.random() < 0.4 else rng.choice(palette)
            size = rng.choice([2, 3, 10, 100, 1000, rng.randint(2, 60000)])
            last = min(MAX, cp + size - 1)
            if last > cp:
                entries.append([cp, last, c, "", None, None, None])
                cp = last + 1
            last_class = c
            continue
        if kind < 0.35:
            c = last_class if rng.random() < 0.3 else rng.choice(palette)
            cls = [c] * rng.choice([1, 1, 2, 3, 8, 32, 33, rng.randint(1, 80)])
        elif kind < 0.65:
            k = rng.randint(0, 1)
            cls = ["Lu" if (i + k) & 1 else "Ll" for i in range(rng.choice([1, 2, 3, 4, 5, 16, rng.randint(1, 50)]))]
            if rng.random() < 0.3 and cls:
                cls[rng.randrange(len(cls))] = rng.choice(["Lu", "Ll", "Lo"])
        elif kind < 0.9:
            cls = [rng.choice(palette) for _ in range(rng.choice([1, 2, 3, 6, 20]))]
        else:
            # Singles among twos.
            cls = []
            for _ in range(rng.randint(1, 8)):
                cls += [rng.choice(palette)] * rng.choice([1, 2])
        cls = cls[:MAX + 1 - cp]
        for c in cls:
            new.append([cp, None, c, "", None, None, None])
            cp += 1
        if cls:
            last_class = cls[-1]
        for k in range(3):
            m = mapping(rng, [e[0] for e in new])
            for e in new:
                e[4 + k] = m.get(e[0])
        if rng.random() < 0.3 and new[0][6] is None:
            for e in new:
                e[6] = e[4]
        entries += new
    if rng.random() < 0.3 and (entries[-1][1] or entries[-1][0]) < MAX:
        entries.append([MAX, None, rng.choice(palette), "", None, None, None])
    # The scripts' tables may not be empty.
    singles = [e for e in entries if e[1] is None and e[0] >= 0xC0]
    if not singles or singles[-1][0] > 0xFFFFF:
        entries = [e for e in entries if e[0] < 0x80] + [[0x2000, None, "Lo", "", None, None, None]]
        singles = entries[-1:]
    for k in range(3):
        singles[0][4 + k] = 0x41 + rng.randint(0, 0x20000)
    decompose(rng, entries, singles)
    return entries


def decompose(rng, entries, singles):
    low = [e for e in singles if e[0] <= 0xFFFFF]
    used = set()
    rng.shuffle(low)
    low = low[:rng.choice([1, 3, 10, 60, 200])]
    # The second is never decomposable: the library follows the first.
    deco = {e[0] for e in low}
    marks = [m for m in (rng.randint(0x300, 0x36F) for _ in range(6))]
    marks += [rng.randint(0x300, 0xFFFFF) for _ in range(3)] + [0x300, 0xFFFFF]
    marks = [m for m in marks if m not in deco]
    if not marks:
        marks = [m for m in range(0x300, 0x1000) if m not in deco][:3]
    done = []
    style = rng.random()
    for i, e in enumerate(low):
        r = rng.random()
        if i and r < 0.1:
            e[3] = rng.choice(["<compat> 0041 0301", "<font> 0061", "0041", "00C5", "<noBreak> 0020",
                               "<circle> 0300 0301"])
            continue
        for _ in range(20):
            if done and rng.random() < (0.5 if style < 0.5 else 0.1):
                a = rng.choice(done)[0]
            else:
                a = rng.choice([rng.randint(0x41, 0x7A), rng.randint(0x80, 0xFFFFF), rng.randint(0x300, 0x4000), 0xFFFFF])
                # Undecomposed code points only: chains have no cycles.
                if a in deco:
                    continue
            b = rng.choice(marks) + (rng.randint(0, 2) if rng.random() < 0.2 else 0)
            if (a, b) in used or b in deco or b > 0xFFFFF:
                continue
            used.add((a, b))
            e[3] = "%04X %04X" % (a, b)
            done.append(e)
            break


def changed(rng, real):
    """The real file with some changes."""
    entries = [list(e) for e in real]
    for _ in range(rng.choice([1, 5, 40])):
        i = rng.randrange(len(entries))
        if entries[i][0] < 0x80:
            continue
        j = min(len(entries), i + rng.choice([1, 1, 2, 5, 30, 400]))
        r = rng.random()
        part = entries[i:j]
        if r < 0.3:
            del entries[i:j]
        elif r < 0.55:
            c = rng.choice(CLASSES)
            for e in part:
                e[2] = c
        elif r < 0.7:
            for k, e in enumerate(part):
                e[2] = "Lu" if k & 1 else "Ll"
        elif r < 0.85:
            for k in range(3):
                m = mapping(rng, [e[0] for e in part if e[1] is None])
                for e in part:
                    e[4 + k] = m.get(e[0])
        else:
            # A run becomes a range.
            if all(e[1] is None for e in part) and part[-1][0] > part[0][0]:
                entries[i:j] = [[part[0][0], part[-1][0], part[0][2], "", None, None, None]]
    return sanitize(entries)


def sanitize(entries):
    """Two-element decompositions must still be within what is claimed."""
    seen = set()
    for e in entries:
        if e[3] and e[3][0] != "<" and len(e[3].split()) == 2:
            if e[3] in seen or e[0] > 0xFFFFF:
                e[3] = ""
            seen.add(e[3])
    return entries


# ------------------------------------------------------------------- running
class Lab:
    def __init__(self, repo, build, harness):
        self.repo, self.harness = repo, harness
        self.dir = os.path.join(build, "run", "C26.%d" % os.getpid())
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.tools = os.path.join(self.dir, "tools")
        shutil.copytree(os.path.join(repo, "tools", "unicode_character_tables"), self.tools,
                        ignore=shutil.ignore_patterns("__pycache__"))
        self.env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        self.flags = ["-std=c++20", "-O1", "-pipe", "-I", os.path.join(repo, "include")]
        self.sources = sorted(glob.glob(os.path.join(repo, "src", "Ystring", "*.cpp")))
        self.headers = [os.path.basename(h) for h in glob.glob(os.path.join(repo, "src", "Ystring", "*Tables.hpp"))]
        self.data = sorted(glob.glob(os.path.join(repo, "data", "unicode", "UnicodeData*.txt")))[-1]
        with open(self.data) as f:
            self.real_text = f.read()
        self.real = parse(self.real_text)
        self.ascii_part = [e for e in self.real if e[0] < 0x80]
        base = os.path.join(self.dir, "base")
        os.makedirs(base)
        self.affected = []
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            deps = list(ex.map(self.dependencies, self.sources))
            jobs = []
            for s, d in zip(self.sources, deps):
                if any(h in d for h in self.headers):
                    self.affected.append(s)
                jobs.append(ex.submit(self.compile, s, os.path.join(base, os.path.basename(s) + ".o"), []))
            jobs.append(ex.submit(self.compile, os.path.join(harness, "tables_driver.cpp"),
                                  os.path.join(base, "driver.o"), []))
            for j in jobs:
                j.result()
        self.fixed = [os.path.join(base, os.path.basename(s) + ".o") for s in self.sources if s not in self.affected]
        self.fixed.append(os.path.join(base, "driver.o"))
        self.base = base

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, cmd, timeout=300, **kw):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout, **kw)
        return p.returncode, p.stdout

    def dependencies(self, src):
        rc, out = self.run(["g++"] + self.flags + ["-MM", src])
        if rc:
            raise BuildError(out[:2000])
        return {os.path.basename(x) for x in out.replace("\\\n", " ").split()}

    def compile(self, src, obj, flags):
        rc, out = self.run(["g++"] + flags + self.flags + ["-c", src, "-o", obj])
        if rc:
            raise BuildError(out[:2000])

    def lookups(self, d, exe, entries, expected, seed):
        queries = expected.queries(random.Random(seed))
        with open(os.path.join(d, "pairs"), "w") as f:
            f.writelines("%X %X\n" % q for q in queries)
        out = os.path.join(d, "out")
        try:
            rc, text = self.run([exe, out, os.path.join(d, "pairs")], timeout=60)
        except subprocess.TimeoutExpired:
            return "the lookups do not end"
        if rc:
            return "the lookups end with status %d %s" % (rc, text[:300])
        a = array.array("I")
        with open(out, "rb") as f:
            a.frombytes(f.read())
        n = MAX + 1
        for name, e, k in (("get_char_class", expected.classes, 0), ("to_upper", expected.maps[0], 1),
                           ("to_lower", expected.maps[1], 2), ("to_title", expected.maps[2], 3)):
            got = a[k * n:(k + 1) * n]
            if got != e:
                cp = next(i for i in range(n) if got[i] != e[i])
                total = sum(1 for i in range(n) if got[i] != e[i])
                return "%s(U+%04X) is 0x%X, expected 0x%X (and %d more differ)" % (name, cp, got[cp], e[cp], total - 1)
        i = 4 * n
        seen = {}
        while a[i] != 0xFFFFFFFF:
            size = a[i + 1]
            seen[a[i]] = list(a[i + 2:i + 2 + size])
            i += 2 + size
        want = {cp: expected.decompose(cp) for cp in expected.pairs}
        if seen != want:
            cp = next(c for c in sorted(set(seen) | set(want)) if seen.get(c) != want.get(c))
            return "decompose(U+%04X) is %s, expected %s" % (
                cp, ["%X" % x for x in seen.get(cp, [cp])], ["%X" % x for x in want.get(cp, [cp])])
        i += 1
        for x, y in queries:
            size = a[i]
            got = list(a[i + 1:i + 1 + size])
            i += 1 + size
            w = [expected.compose[x, y]] if (x, y) in expected.compose else [x, y]
            if got != w:
                return "to_composed(U+%04X U+%04X) is %s, expected %s" % (
                    x, y, ["%X" % c for c in got], ["%X" % c for c in w])
        return None

    def case(self, name, entries, seed=1, text=None):
        """Returns what is wrong, or None."""
        d = os.path.join(self.dir, name)
        os.makedirs(d)
        try:
            tables = os.path.join(d, "tables")
            src = os.path.join(d, "src")
            os.makedirs(tables)
            os.makedirs(src)
            data = os.path.join(d, "UnicodeData.txt")
            with open(data, "w") as f:
                f.write(text if text is not None else text_of(entries))
            try:
                rc, out = self.run(["bash", os.path.join(self.tools, "make_files.sh"), data], cwd=tables, env=self.env,
                                   timeout=100)
            except subprocess.TimeoutExpired:
                return "the table generator does not end"
            if rc or "Traceback" in out:
                return "the table generator fails: " + out[-400:]
            made = os.listdir(tables)
            missing = [h for h in self.headers if h not in made]
            if missing:
                return "the table generator does not make " + ", ".join(missing)
            # Local includes find the new tables, as the sources are copies.
            for f in os.listdir(os.path.join(self.repo, "src", "Ystring")):
                if f not in made:
                    shutil.copy(os.path.join(self.repo, "src", "Ystring", f), src)
            for f in made:
                shutil.copy(os.path.join(tables, f), src)
            objs = []
            for s in self.affected:
                o = os.path.join(d, os.path.basename(s) + ".o")
                try:
                    self.compile(os.path.join(src, os.path.basename(s)), o, [])
                except BuildError as e:
                    return "the generated tables do not compile: " + str(e)[:600]
                objs.append(o)
            exe = os.path.join(d, "driver")
            rc, out = self.run(["g++", "-o", exe] + self.fixed + objs)
            if rc:
                raise BuildError(out[:2000])
            return self.lookups(d, exe, entries, Expected(entries), seed)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def committed(self):
        """The committed tables against the committed data."""
        d = os.path.join(self.dir, "committed")
        os.makedirs(d)
        exe = os.path.join(d, "driver")
        objs = [os.path.join(self.base, os.path.basename(s) + ".o") for s in self.affected]
        rc, out = self.run(["g++", "-o", exe] + self.fixed + objs)
        if rc:
            raise BuildError(out[:2000])
        r = self.lookups(d, exe, self.real, Expected(self.real), 1)
        shutil.rmtree(d)
        return r


def make_case(lab, seed):
    rng = random.Random(seed)
    if rng.random() < 0.8:
        return "synthetic", synthetic(rng, lab.ascii_part)
    return "changed", changed(rng, lab.real)


def shrink(lab, entries, deadline):
    """Removes (groups of) entries beyond ASCII, then decorations."""
    head = [e for e in entries if e[0] < 0x80]
    tail = [e for e in entries if e[0] >= 0x80]
    n = 0

    # What the scripts need for their tables to be other than empty.
    keep = [[0x10FF00, None, "Lo", "", 0x41, 0x41, 0x41], ]
    anchor = [[0xF0000, None, "Lo", "0041 0300", None, None, None]]

    def fails(t):
        nonlocal n
        n += 1
        used = {e[0] for e in t}
        if any((e[1] or e[0]) >= 0x10FF00 for e in t):
            full = head + t
        elif any((e[1] or e[0]) >= 0xF0000 for e in t):
            full = head + sorted(t + keep)
        else:
            full = head + sorted(t + anchor + keep, key=lambda e: e[0])
        del used
        r = lab.case("shrink%d" % n, full)
        return full if r and "do not compile" not in r else None

    best = entries
    step = max(1, len(tail) // 2)
    while step and time.time() < deadline:
        i = 0
        progress = False
        while i < len(tail) and time.time() < deadline:
            t = tail[:i] + tail[i + step:]
            full = fails(t)
            if full:
                tail, best, progress = t, full, True
            else:
                i += step
        if step == 1 and not progress:
            break
        step = max(1, step // 2) if step > 1 else (1 if progress else 0)
    return best


def describe(entries, limit=600):
    t = text_of([e for e in entries if e[0] >= 0x80])
    return t if len(t) < limit else t[:limit] + "..."


def structures(entries):
    """Counts of what the file has beyond ASCII, for the evidence."""
    s = {"First/Last ranges": 0, "alternating-case steps": 0, "gaps": 0, "case mappings": 0,
         "two-element decompositions": 0, "code points listed singly": 0}
    prev = None
    for e in entries:
        if e[0] < 0x80:
            continue
        s["First/Last ranges" if e[1] is not None else "code points listed singly"] += 1
        if prev:
            if prev[1] is None and e[1] is None and prev[0] + 1 == e[0] and {prev[2], e[2]} == {"Lu", "Ll"}:
                s["alternating-case steps"] += 1
            if (prev[1] or prev[0]) + 1 != e[0]:
                s["gaps"] += 1
        s["case mappings"] += sum(x is not None for x in e[4:7])
        s["two-element decompositions"] += bool(e[3]) and e[3][0] != "<" and len(e[3].split()) == 2
        prev = e
    return s


def check(o, verif, repo, build):
    start = time.time()
    seed, quick = int(o["seed"]), o["tier"] == "quick"
    seconds = float(o["seconds"] or (100 if quick else 600))
    count = int((160 if quick else 3000) * float(o["scale"]))
    harness = os.path.join(verif, "harness")
    try:
        lab = Lab(repo, build, harness)
    except BuildError as e:
        print("build failed: %s" % e)
        return 2
    try:
        if o["replay"]:
            with open(o["replay"]) as f:
                r = json.load(f)
            msg = lab.committed() if r["kind"] == "committed" else lab.case("replay", r["entries"], 1, r.get("text"))
            print("FAILS: " + msg if msg else "passes")
            if msg:
                print("VIOLATION property=C26 replay=" + o["replay"])
            return 1 if msg else 0
        return explore(o, verif, lab, seed, quick, seconds, count, start)
    except BuildError as e:
        print("build failed: %s" % e)
        return 2
    finally:
        lab.close()


def explore(o, verif, lab, seed, quick, seconds, count, start):
    evaluations, nontrivial = 0, set()
    totals, kinds = {}, {}
    samples = []
    failure = None

    msg = lab.committed()
    evaluations += 1
    if msg:
        failure = ("committed", None, "the committed tables differ from the committed file: " + msg, None)
    if not failure:
        msg = lab.case("real", lab.real, 1, lab.real_text)
        evaluations += 1
        if msg:
            failure = ("real", lab.real, "tables made from the committed file: " + msg, lab.real_text)

    def one(i):
        if time.time() - start > seconds:
            return None
        kind, entries = make_case(lab, seed * 1000003 + i)
        return i, kind, entries, lab.case("case%d" % i, entries, i)

    if not failure:
        with concurrent.futures.ThreadPoolExecutor(int(o["workers"])) as ex:
            pending = set()
            i = 0
            while (i < count or pending) and not failure:
                while i < count and len(pending) < 16:
                    pending.add(ex.submit(one, i))
                    i += 1
                done, pending = concurrent.futures.wait(pending, return_when="FIRST_COMPLETED")
                for f in done:
                    r = f.result()
                    if r is None:
                        i = count
                        continue
                    k, kind, entries, msg = r
                    evaluations += 1
                    s = structures(entries)
                    for x in s:
                        totals[x] = totals.get(x, 0) + s[x]
                    kinds[kind] = kinds.get(kind, 0) + 1
                    if s["code points listed singly"] >= 5 and s["case mappings"] and s["two-element decompositions"]:
                        nontrivial.add(hash(text_of(entries)))
                    if len(samples) < 4:
                        samples.append("case %d (%s): %s\n%s" % (k, kind, s, describe(entries)))
                    if msg and not failure:
                        failure = (kind, entries, msg, None)
            for f in pending:
                f.cancel()

    path = None
    if failure:
        kind, entries, msg, text = failure
        if entries is not None and text is None:
            entries = shrink(lab, entries, time.time() + 90)
            msg = lab.case("final", entries) or msg
        os.makedirs(os.path.join(verif, "replays"), exist_ok=True)
        path = os.path.join(verif, "replays", "C26-%s-%d.json" % (o["tier"], seed))
        with open(path, "w") as f:
            json.dump({"property": "C26", "kind": kind, "entries": entries, "text": text, "failure": msg}, f)
        if entries is not None and text is None:
            print("case: UnicodeData file with, beyond ASCII,\n" + describe(entries))
        print("failure: " + msg)
        print("VIOLATION property=C26 replay=" + path)

    evidence = o["evidence"] or os.path.join(verif, "evidence", "C26.json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    with open(evidence, "w") as f:
        json.dump({
            "property": "C26", "tier": o["tier"], "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(nontrivial),
                "rule": "A case is a UnicodeData file: the standard ASCII part and random structures (First/Last ranges, "
                        "runs of one class, alternating-case runs, single code points, gaps, positions at 32- and "
                        "65536-boundaries; case mappings at constant, mixed and arbitrary distances; chains of two-element, "
                        "compatibility and other decompositions), or the real file with entries removed, reclassified, "
                        "remapped or made ranges. The scripts make tables of it, the library is compiled with them, and "
                        "every lookup of all 1114112 code points (and compositions of listed and similar pairs) is compared "
                        "with the file. First the committed tables and tables made from the committed file. Non-trivial: "
                        "five code points, a mapping and a decomposition beyond ASCII; distinct: different files.",
                "lookups_compared": evaluations * 4 * (MAX + 1),
                "kinds": kinds, "structures": totals, "samples": samples or ["the committed tables"]},
            "wall_s": time.time() - start, "violations": 1 if failure else 0}, f, indent=1)
    print("C26: %d files, %d distinct non-trivial, %.1f s" % (evaluations, len(nontrivial), time.time() - start))
    return 1 if failure else 0
