#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md (run by hand)."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
first_missed = {"c09-attr-equals-group", "c10-macro-semicolon", "c11-call-discriminant", "c14-skip-last", "c18-macro-name-span", "c07-static-inner", "c16-path-junk", "c13-derive-skips-empty", "c14-comma-spacing", "c24-empty-doc", "c23-vis-debug", "c12-late-inner-attr", "c09-crate-segment", "c01-apostrophe-joint", "c12-leaked-depth", "c17-third-equal", "c13-derive-bounded", "c18-late-variant", "c12-third-comma", "c08-self-self", "c11-invisible", "c07-member-attrs"}
rows = []
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['what_it_breaks']} | {m['property']}{' (missed at first, spaces extended)' if d in first_missed else ''} |")
s = open(here + "/DESIGN.md").read()
i = s.index("## Seeded changes")
s = s[:i] + "## Seeded changes\n\nEach was run against the quick check of its own property.\n\n| change | breaks | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n"
open(here + "/DESIGN.md", "w").write(s)
