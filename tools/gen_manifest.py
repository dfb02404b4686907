#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PB = "property-based testing: "
T = {
 "H01": ("stateful generation of encoder/decoder histories, round-trip oracle", "exploration",
         "Every generated history is replayed through real encoder/decoder pairs; headers must come back equal and both tables must agree when probed."),
 "H02": ("generated calls and enumerated boundary sweeps against a reference serialiser and parser", "exploration",
         "Octet-exact comparison with an independent RFC 7541 serialiser; boundary lengths, indices and sizes enumerated."),
 "H03": ("stateful generation against a model table", "exploration",
         "The model table is fed with the encoder's own output, so the due representation is known for each call."),
 "H04": ("stateful generation, model tables and a metamorphic relation (dropping non-indexed headers)", "exploration",
         "Emitted patterns, delivered flags and both tables are compared with the model; all flag combinations enumerated."),
 "H05": ("generated valid wire-level blocks against a reference decoder", "exploration",
         "The blocks use every choice an RFC 7541 encoder has; the meaning is known by construction."),
 "H06": ("differential fuzzing of malformed blocks against a reference decoder; short inputs enumerated", "exploration",
         "All inputs of up to 3 octets are enumerated; longer malformed inputs are built by kind or mutated."),
 "H07": ("stateful fuzzing with a counting allocator and a CPU-time watchdog", "exploration",
         "Panics (with overflow checks on), runaway calls and heap growth beyond a stated linear bound are detected."),
 "H08": ("fault injection: every cut point of generated streams, malformed fields at any place; reference decoder as oracle", "fault_enumeration",
         "For each stream of up to 160 octets every single cut point is tried."),
 "H09": ("model-based testing of table histories; short histories enumerated", "exploration",
         "Entries, count, size and maximum are compared with the model after each operation; all histories of 5 of 9 operations enumerated."),
 "H10": ("model-based testing of lookups; short histories enumerated", "exploration",
         "get, iteration and search for every index and every header of interest are compared with the model."),
 "H11": ("stateful generation against a model of the limits", "exploration",
         "Getters, refusals and table contents are compared with the model after each step."),
 "H12": ("generated pull histories, differential against one-shot decoding", "exploration",
         "Capacities, boundaries and returned counts are compared with the model for every call."),
 "H13": ("stateful generation, twin-encoder metamorphic relation and model table", "exploration",
         "A twin that never saw the refused calls must write the same octets."),
 "F01": ("generated and enumerated strings against the RFC code table, round-trip at five speeds", "exploration",
         "All octet pairs at all bit offsets are enumerated."),
 "F02": ("differential fuzzing against a bit-by-bit reference; sequences of up to 3 octets enumerated", "exploration",
         "All sequences of up to 3 octets and all paddings behind each symbol are enumerated at the five speeds."),
 "F03": ("generated prefix codes, matrices walked by an independent interpreter; shipped matrices enumerated", "exploration",
         "The shipped matrices are walked for all symbol pairs; generated codes are sampled."),
 "C01": ("generated histories of several codecs, interleaved by a generated schedule and run on threads; metamorphic relation with each codec alone", "exploration",
         "Every result must be the same alone, interleaved, again later, and on a thread of its own next to the others."),
 "P01": ("generated field sequences, round-trip oracle", "exploration",
         "Values are compared by their bits, nested messages recursively."),
 "P02": ("generated and enumerated fields against a reference writer of the proto3 wire format", "exploration",
         "Octet-exact comparison through all three entry points; values, tags and lengths next to powers of two enumerated."),
 "P03": ("generated messages of an independent writer, compared by construction", "exploration",
         "The fields are known by construction; unusual but valid encodings are generated."),
 "P04": ("fault injection: every cut point, byte by byte and random partitions; reference framing as oracle", "fault_enumeration",
         "After each call everything delivered and removed is compared with the framing of the input so far."),
 "P05": ("fuzzing with injected wrong elements against a reference framing, counting allocator", "exploration",
         "Each kind of wrong element is injected behind valid fields; short inputs enumerated; heap growth bounded."),
 "P06": ("generated contents against an independent conversion, all 27 x 16 conversions", "exploration",
         "All literal and target combinations are tried for each generated content."),
 "P07": ("generated and enumerated tags for every format and entry point", "exploration",
         "All tags within 3 of a power of two are enumerated for a value of every format."),
 "P08": ("fault injection: a scripted writer failing at every byte", "fault_enumeration",
         "For each field the writer fails after every number of bytes, in ten ways."),
}
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
assert set(props) == set(T)
checks = []
for p in props:
    t, level, note = T[p]
    checks.append({"property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": PB + t + "; then coverage-guided search over the same generators and oracles", "level": level,
                   "level_note": note + " Absence of violations outside what was generated is not shown. Trusted: the reference models in harness/src/oracle, written from the RFC and the proto3 encoding document; assumptions are listed in the evidence file."})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "One binary (harness/, built by check.sh against /repo's working tree) holds all checks. VERIF_SEED picks the cases; counts are fixed per tier. A second build of it with edge coverage of the code under test runs the guided search after the check proper. No hooks are needed in /repo."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
