#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand; the output is committed)."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
T = {
 "C01": "bounded exhaustive enumeration of declarations and token strings on the real parser, round-trip oracle",
 "C02": "bounded exhaustive enumeration on the real parser, every token given its own source location, span oracle",
 "C03": "bounded exhaustive enumeration of declarations, kind and qualifier reference model",
 "C04": "bounded exhaustive enumeration of type declarations against a reference model",
 "C05": "bounded exhaustive enumeration of generic lists and where clauses against a reference model",
 "C06": "bounded exhaustive enumeration of function signatures against a reference model",
 "C07": "bounded exhaustive enumeration of containers and members against a reference model",
 "C08": "bounded exhaustive enumeration of small items against a reference model",
 "C09": "bounded exhaustive enumeration of attributes and visibilities at every position against a reference model",
 "C10": "exhaustive exploration of item sequences and continuations on one real iterator",
 "C11": "exhaustive enumeration of discriminant assignments against a reference model",
 "C12": "exhaustive enumeration of token strings, single-token edits and single defects, rejection oracle",
 "C13": "exhaustive exploration of builder call sequences against a reference model",
 "C14": "exhaustive enumeration of parameter lists, parsed and built, against a reference model",
 "C15": "explicit-state exploration of all list operation histories against a reference model",
 "C16": "exhaustive enumeration of type expressions against a reference path recogniser",
 "C17": "exhaustive exploration of error creation and combination histories against a reference model",
 "C18": "bounded exhaustive enumeration of declarations, accessor reference model",
 "C19": "exhaustive enumeration of spacing flips and invisible-group wrappings, differential oracle",
 "C20": "exhaustive exploration of edit sequences on parsed items against a reference model",
 "C22": "bounded exhaustive enumeration of declarations, every part printed and compared with a reference model",
 "C23": "bounded exhaustive enumeration of declarations, every part formatted and compared with a reference model",
 "C24": "exhaustive enumeration of renamings and of contents of opaque groups, differential oracle",
 "C21": "exhaustive product of opaque expressions and capturing positions against a reference model",
}
note = ("Stateless model checking of the real library: every execution in the stated spaces (listed with their bounds and "
        "counts in the evidence file) is run and compared with an independent reference model or oracle. Nothing is claimed "
        "beyond the alphabets and deviation bounds. Trusts proc_macro2's fallback token streams, rustc, and the reference model.")
m = {
 "version": 1,
 "setup_cmd": "bash check.sh build",
 "checks": [dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
                 evidence_file=f"evidence/{i}.json", technique="model checking: " + T[i], level="model_checking", level_note=note) for i in ids],
 "not_applicable": [],
 "notes": "No hooks: everything checked is public. Known findings and fixed defects: known_findings.txt. See DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
