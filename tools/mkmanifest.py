#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties in properties.jsonl."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
TECH = {}
NOTE = {}
def group(ids, tech, note):
    for i in ids.split():
        TECH[i] = tech
        NOTE[i] = note
ref = "The reference codecs in harness/src/refimpl are written from the standards and share no code with the library; trusted are these codecs, rustc and the generators' stated domains."
group("C01 C02 C03", "property-based testing with a reference packetiser and a model of the reassembler", "Millions of generated sections, packetisations and fault sequences from a seed; no proof of absence. " + ref)
group("C04", "property-based testing against a bitwise CRC, with enumeration of short strings", "All strings of up to two bytes, generated longer sections and error patterns. " + ref)
group("C05 C06", "structure-aware fuzzing with panic, memory and termination oracles", "Generated and mutated packets, sections, descriptors and texts; overflow checks and debug assertions are on in the library under test. Shows absence of failures on the explored inputs only.")
group("C07 C08 C09 C10 C11 C12 C13 C14", "property-based round-trip testing against a reference encoder and decoder", "Generated tables in both directions: library to reference and reference to library. " + ref)
group("C15 C16 C17", "property-based round-trip testing against reference descriptor codecs", "Generated descriptors and loops, small fields enumerated. " + ref)
group("C18 C19 C20", "property-based testing against reference character tables, all bytes enumerated", "All byte values in all tables and all 1.1 million characters are enumerated, strings are generated. The tables come from the published ISO 8859 and ISO 6937 tables.")
group("C21 C22", "stateful property-based testing with a scripted byte source", "Generated read schedules with short reads, interruptions and errors. The source model is trusted.")
group("C23 C24 C25 C28 C29", "property-based testing against a bit-level model, small domains enumerated", "Field-level domains of up to 18 bits are enumerated, wider ones sampled with bias to boundaries. " + ref)
group("C26 C27", "enumeration and property-based testing against reference conversions", "BCD values, days and three-letter codes are enumerated; the rest is sampled. " + ref)
group("C30 C31", "enumeration and property-based testing against the standards' code points", "Every constant and generated packets and descriptors. The transcription of the code points is trusted.")
group("C32", "stateful property-based testing of reader, reassembler and tables together", "Generated multiplexes and read schedules. " + ref)
group("C33 C34 C35", "property-based testing with metamorphic relations", "Generated tables and sections of every kind; trusted are the strict packet reader of the harness and the generators' stated domains.")
group("C36", "structure-aware mutation of sections against a reference decoder model", "Valid sections of the reference encoder with one wrong length each. " + ref)
group("C37", "property-based testing against the layouts of the standards", "Generated tables and descriptors; the transcription of the layouts is trusted.")
group("C38", "property-based testing of the generator program on generated directories", "Thousands of generated directories of mapping files, and the published mappings; the reader of the printed tables and the reference character tables are trusted.")
checks = []
for i in ids:
    checks.append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough",
        evidence_file=f"evidence/{i}.json", technique=TECH[i], level="exploration", level_note=NOTE[i]))
m = dict(version=1, setup_cmd="bash build.sh", checks=checks, not_applicable=[],
    notes="No hooks: the public API of the crate suffices. After its random cases every check searches on with coverage guidance where the library code it reaches can be instrumented. Findings on the original tree are in known_findings.txt.")
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
