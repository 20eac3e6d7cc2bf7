#!/usr/bin/env python3
"""Writes SPACES.md from the evidence files: what each check enumerated, without timings."""
import glob, json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
out = ["# Spaces explored by the quick checks", "", "Generated by tools/gen_spaces.py from evidence/*.json of a quick run on the unchanged tree.", ""]
for f in sorted(glob.glob(os.path.join(here, "evidence", "C*.json"))):
    e = json.load(open(f))
    c = e["coverage"]
    out.append("## " + e.get("property", os.path.basename(f)[:-5]))
    out.append("")
    for s in c["spaces"]:
        out.append("- **%s** — %s. %s executions, %s states, %s outcome classes%s" % (s["name"], s["what"].rstrip("."), s["executions"], s["states"], s["outcome_classes"], "" if s["complete"] else " (NOT complete)"))
    out.append("")
open(os.path.join(here, "SPACES.md"), "w").write("\n".join(out))
