#!/usr/bin/env python3
"""writes MANIFEST.json from the properties the job table covers"""
import json, os
import jobs
HERE = jobs.HERE
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
seq = ("Within the stated bounds (evidence: coverage.jobs[].bounds) every path of the compiled code of xecs under the harness is executed symbolically: "
       "ids, component values and choices are bit-vector variables, a path is followed while Z3 finds its condition satisfiable, and every assertion and every load, store and free is shown to hold for all values of the path or yields a model. "
       "A model is replayed on native builds before it is reported; sampled paths are compared with native runs. "
       "Nothing is claimed beyond the bounds. Trusted: rustc's IR generation, the engine's models of malloc, memcpy, unwinding and hash keys, Z3.")
con = seq + " Threads are interleaved where they ask for a lock, up to the stated number of preemptions; parking_lot is replaced by a stand-in on the same lock_api."
out = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": [{
        "property": p,
        "quick_cmd": "python3 tools/check.py %s quick" % p,
        "thorough_cmd": "python3 tools/check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "symbolic execution of the compiled LLVM IR of xecs, decided by Z3" + (", with symbolic schedules" if "conc" in jobs.JOBS[p]["crate"] else ""),
        "level": "model_checking",
        "level_note": con if "conc" in jobs.JOBS[p]["crate"] else seq,
    } for p in props if p in jobs.JOBS],
    "not_applicable": [],
    "notes": "No hooks: the harnesses use the public API only. See DESIGN.md.",
}
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
