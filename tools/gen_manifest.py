#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a check in harness/src/props."""
import json, os, re, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = {
 "C01": "property-based testing: model-based round trip over generated write histories",
 "C02": "property-based testing: round trip of generated metadata against the specification of the entry",
 "C03": "property-based testing: differential against an independent strict ZIP parser and the zip crate",
 "C04": "property-based testing: differential between the readers on generated archives",
 "C05": "property-based testing: archives laid out by an independent encoder, compared with the layout",
 "C06": "stateful property-based testing: generated traversal scripts against a position model",
 "C07": "property-based testing with injected corruption against an independent CRC-32",
 "C08": "fuzzing: structure-aware and byte-level mutation with panic, hang and allocation oracles",
 "C09": "property-based testing: every prefix of generated archives",
 "C10": "property-based testing of generated I/O schedules against ideal I/O (metamorphic)",
 "C11": "fault injection at every operation index of generated histories",
 "C12": "property-based testing at the 16/32-bit limits on virtual sparse storage, against the specification",
 "C13": "stateful property-based testing: generated interleavings of entry readers against the known contents",
 "C14": "stateful property-based testing: histories mixing refused and accepted entries against a length model",
 "C15": "property-based testing: enumeration of the component space and generated setter sequences against a calendar model",
 "C16": "property-based testing: generated names, flags and Unicode fields against a decision-table oracle",
 "C17": "stateful property-based testing: generated chains of read-and-rewrite against the original specification",
 "C18": "property-based testing: enumerated comment lengths and generated signature look-alikes against the known directory",
 "C19": "stateful property-based testing: builder call sequences against a last-write-wins model",
 "C20": "property-based testing: enumerated identifiers and generated unsupported archives against an error table",
 "C21": "property-based testing: round trip and metamorphic equality of precompressed and plain writing",
 "C22": "property-based testing: differential between the tokio and futures front ends under generated schedules",
 "C23": "stateful property-based testing: generated histories of completed, cancelled and abandoned entries, with cancellation enumerated at every poll",
 "C24": "property-based testing: generated entries and archives against heap and I/O accounting bounds",
 "C25": "stateful property-based testing: generated write and flush sequences against independent decoding of what the sink holds",
 "C27": "property-based testing: generated recombinations of directories and sources against the reader that opened the archive (metamorphic)",
 "C28": "stateful property-based testing: generated interleavings of independent writers and readers against each run alone",
 "C26": "property-based testing: differential between builds with generated subsets of the features and the full build",
}
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(root, "harness/src/props", i.lower() + ".rs")
    if not os.path.exists(f):
        na.append(dict(property=i, reason="check not built yet"))
        continue
    src = open(f).read()
    m = re.search(r'assumptions:\s*&\[(.*?)\],\n', src, re.S)
    note = "Assumes: " + "; ".join(x.replace('\\"', '"') for x in re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1))) + "." if m else ""
    level = re.search(r'level:\s*"(\w+)"', src).group(1)
    checks.append(dict(property=i, quick_cmd=f"tools/check.sh {i} quick", thorough_cmd=f"tools/check.sh {i} thorough",
        evidence_file=f"evidence/{i}.json", technique=TECH[i],
        level=level,
        level_note=("Searched, not proved: holds on every generated case, case counts and non-triviality in the evidence. " + note).strip()))
d = dict(version=1, setup_cmd="tools/build.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the harness uses the public API only. Known findings: KNOWN_FINDINGS.json.")
json.dump(d, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
