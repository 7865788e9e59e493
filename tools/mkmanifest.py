#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "generated byte strings (all of length 1-2, samples of 3-5, mutated, coverage guided) against an independent structural decoder",
 "C02": "enumerated code points and generated texts: round trip and comparison with an independent encoder",
 "C03": "generated byte strings against an independent unit splitter; idempotence and validity of the result",
 "C04": "generated byte strings: differential of forward and backward skipping and an independent unit splitter",
 "C05": "every code point and generated values against an independent reader of UnicodeData 16.0",
 "C06": "every code point and generated texts against a model of the simple mappings",
 "C07": "every code point and generated texts against a model of pair decomposition; idempotence",
 "C08": "every code point and generated texts against a model fold; inverse relations",
 "C09": "generated marked texts against a code point list partitioned into characters",
 "C10": "generated texts and indexes against a decoded list",
 "C11": "enumerated and generated (text, start, end) against list slices",
 "C12": "generated (text, index, insertion) against list splicing",
 "C13": "generated haystacks and needles against a naive search",
 "C14": "generated texts, lists, sets and predicates against naive search and a set model",
 "C15": "every code point and generated newline-rich texts against a newline scanner",
 "C16": "generated texts, separators, limits and finders against a naive splitter; join inverts split",
 "C17": "every code point and generated texts against a naive trimmer",
 "C18": "generated texts, needles and limits against a naive replacer",
 "C19": "generated string triples against comparison of upper-cased lists; order laws",
 "C20": "every code point and generated recased needles against a naive case-insensitive matcher",
 "C21": "generated texts: exact model, independent JSON decoding and round trip",
 "C22": "grammar-generated escape sequences, enumerated short ones, against an independent unescaper",
 "C23": "grammar-generated escape sequences read incrementally against an independent reader",
 "C24": "coverage-guided fuzzing of all public functions under ASan, UBSan and libstdc++ assertions",
 "C25": "model-based generation of edit histories against a code point list",
 "C26": "generated Unicode data files through the generator scripts into the library, compared with the file",
 "C28": "generated units repeated n, 8n and 64n times: metamorphic comparison of the work counted",
 "C29": "generated values and sets against number pairs and a parser of the printed form",
 "C30": "generated texts with recording, stateful and throwing callbacks against the code points a search may examine",
 "C31": "generated calls on texts of about 2^31 and 2^32 bytes (tiled mappings): metamorphic comparison with short texts",
 "C32": "generated calls with each allocation made to fail in turn: outcome, targets, memory and later calls compared",
 "C33": "generated calls made in five differently compiled programs: differential",
 "C27": "generated call histories in fresh processes, metamorphic comparison; generated call lists in threads under TSan",
}
NOTE = {
 "C05": "Every code point is enumerated on each run, so for values up to U+10FFFF the answer is complete; larger values are sampled.",
 "C24": "Memory errors are only seen where the sanitizers see them; hangs by CPU time limits that leave a margin of orders of magnitude.",
 "C26": "Files are sampled within the domain stated in DESIGN.md (what the scripts' table layouts can express).",
 "C28": "Work is counted (basic blocks of the library, bytes moved and allocated), not timed, so the result does not depend on the machine's load; a factor of 2 is left open.",
 "C31": "Every function is called a few times per run, each call with one long text; what only happens at other lengths or indexes is not seen.",
 "C32": "Allocations are those made through malloc (which operator new uses).",
 "C33": "Five builds for one machine: x86-64 with libstdc++.",
 "C27": "Races are only found in schedules that occur, though ThreadSanitizer sees unsynchronised access in most schedules.",
}
checks = []
for line in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(line)["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "property-based testing: " + TECH[i],
        "level": "exploration",
        "level_note": NOTE.get(i, "Searches generated inputs against an explicit oracle; shows the absence of violations only on what was generated."),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": []}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
