#!/usr/bin/env python3
# Writes MANIFEST.json.
import json, os
NOTES = {
"C01": "bounds: up to 6 references (9 thorough) with arbitrary boxes and queries (finite or infinite), node sizes 2..16, and concrete sets of up to a few hundred with symbolic queries",
"C02": "bounds: up to 6 references (more thorough), any boxes and queries, start offset, read splits of 1..3 piece sizes",
"C03": "bounds: up to 6 references with any bits; any offset values; node sizes 2..16",
"C04": "every 64-bit count and every node size for the size function (loop unrolled completely: at most 65 levels); level shape up to the stated counts",
"C05": "unbounded in the values: all float64 values of all edges",
"C06": "up to 3 references with any boxes (float arithmetic uninterpreted where its value does not matter, exact on grids), curve position for every 16-bit pair",
"C07": "every 8-byte start, every shorter stream, every split of the reads",
"C08": "up to 3 features (4 thorough) of symbolic bytes, with and without index, known and unknown count, every buffer size up to the stated bound",
"C09": "up to 3 features (4 thorough) with any boxes and any query, any index order, seekable or not",
"C10": "histories of up to 3 calls before the rewind and 2 after it on files of up to 3 features",
"C11": "well-formed two-feature files with 2 (4 thorough) arbitrary bytes anywhere or cut anywhere, index nodes replaced by arbitrary bytes, every header count with node sizes 0, 1, 2, 16 and 65535, arbitrary streams below 22 bytes, arbitrary headers below 15 bytes, every header and feature length, truncation at every byte; allocation of declared sizes succeeds",
"C12": "every sequence of up to 3 calls (4 after the header) of all public calls",
"C13": "every sequence of up to 3 calls (4 thorough), tables of symbolic bytes, destinations failing at any write",
"C14": "one fault at any read, write or seek of the stated call sequences",
"C15": "every split into pieces of the stated sizes, including empty reads and data delivered together with io.EOF",
"C16": "all values of all column types; strings and binaries up to the stated length, including symbolic length",
"C17": "lists of up to 3 pairs (4 thorough) of any column types and any bytes, cut anywhere",
"C18": "tables of symbolic bytes up to the stated size, plus hand-laid tables with symbolic content",
"C19": "all values of all fields, all subsets of fields present (pairs), vectors up to the stated length",
"C21": "up to 6 references with any boxes and queries (8 thorough), up to 2 written features (3 thorough), property values up to 3 bytes",
"C22": "every field of the header alone, all together and all but one, with any numbers and text of 1 to 3 bytes; any finite non-zero box edges",
"C20": "up to 3 features of ten geometry shapes with any coordinates without NaN, and concrete scatters of up to 40 features",
}
have = set(NOTES)
na = {}
root = os.path.dirname(os.path.abspath(__file__))
regs = open(root+"/harness/cmd/replay/registry.go").read()
props = [json.loads(l) for l in open(root+"/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if i not in NOTES or i+"_" not in regs:
        na[i] = "check not built yet"
        continue
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "solver-based checking: symbolic execution of the Go SSA of /repo, decided by z3/cvc5 and decision diagrams, counterexamples replayed natively",
        "level": "model_checking", "level_note": NOTES[i]})
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in na.items()]}
json.dump(m, open(root+"/MANIFEST.json", "w"), indent=1)
open(root+"/MANIFEST.json", "a").write("\n")
