"""Write /verif/MANIFEST.json from the checks present in /verif/checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
AI = "abstract interpretation of the compiled IR (value numbering + interval sets + points-to, trace partitioning, fixpoint with widening)"
TECH = {
    "C01": "static comparison of the mnemonic tables in the IR initialisers with independently written ISA tables",
    "C27": "dataflow / abstract interpretation: divisor and function-pointer obligations at every site",
    "C12": "call-site enumeration over the IR plus " + AI,
    "C29": "typestate analysis of streams by " + AI,
    "C39": "ownership (allocation typestate) analysis by " + AI,
    "C47": "static check of the machine files' text against the directive and instruction tables in the IR",
    "C48": "static evaluation of the machine files' definitions, compared with tables from the manuals",
    "C49": "static expansion of the macro texts, cycle counting and constant propagation",
    "C50": "abstract interpretation (null pointers, read extents) of the line handling code",
    "C51": "abstract interpretation of ftobin over streams of byte terms against the denoted image",
}
NA = {}
try:
    NA = json.load(open(V + "/tools/not_applicable.json"))
except FileNotFoundError:
    pass
checks, na = [], []
for p in props:
    if os.path.exists("%s/checks/%s.py" % (V, p)) and p not in NA:
        checks.append({
            "property": p, "quick_cmd": "python3 /verif/checks/%s.py" % p,
            "technique": TECH.get(p, AI), "level": "other",
            "level_note": "sound-by-construction static analysis of the source within the partitions listed in DESIGN.md; "
                          "the analyser itself and clang's front end are trusted",
            "evidence_file": "/verif/evidence/%s.json" % p})
    else:
        na.append({"property": p, "reason": NA.get(p, "no static check claimed yet; see DESIGN.md")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "Checks compile /repo/src to LLVM IR with clang on every run and analyse that IR; nothing of dasm is executed."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
