#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
REF = "The reference model (mc/model) is trusted as the reading of RFC 4880 / 4880bis and of the documented output format; it is bound to the code because every enumerated execution is run on the real code and compared in full. "
NOTE = {
 "C18": "Exit status, standard output and error are compared on the real command (in process, and as the built binary) for every enumerated command line, input and fault position. ",
 "C19": "Every option set, spelling and run history in the bound is run through the real command and compared with the model's listing. ",
 "C20": "The real command runs against a recording stand-in for the HTTP transport; nothing leaves the process. ",
 "C21": "The real command and library call run against a recording stand-in for the HTTP transport. ",
 "C22": "The real command runs against a recording stand-in for the HTTP transport. ",
 "C23": "All operation histories up to the bound are run on the real cursor in step with a reference cursor. ",
 "C24": "All interleavings of the packet steps of several real parsers are compared with their results alone; the race detector watches a parallel run. ",
 "C28": "The real commands and library calls run against a transport that stalls at the chosen point and delivers the interrupt there. ",
 "C29": "The real library runs on every enumerated input and fault; the expected cause is where the reference decoder stops, or the injected fault. ",
 "C30": "What the real parser and printers allocate is read from the runtime's allocation counter for every enumerated input and compared with a fixed bound per octet, about eight times what the unchanged tree needs. ",
 "C27": "All setting histories up to the bound are run on the real context in step with a reference. ",
}
TECH = {
 "C23": "explicit enumeration of all operation histories of the real cursor against a reference state machine",
 "C27": "explicit enumeration of all setting histories of the real context against a reference state machine",
 "C24": "exhaustive schedule enumeration: every interleaving of the packet steps of several real parsers",
 "C18": "exhaustive enumeration of command lines, inputs and read/write fault positions on the real command against a reference model",
 "C19": "exhaustive enumeration of option sets, spellings and run histories of the real command against a reference model",
 "C20": "exhaustive enumeration of requests, responses and response faults of the real command under a controlled HTTP transport",
 "C21": "exhaustive enumeration of page histories and faults of the real command under a controlled HTTP transport",
 "C28": "exhaustive enumeration of interrupt points of the real commands under a controlled HTTP transport",
 "C29": "exhaustive enumeration of damaged inputs and fault positions of the real library, the cause of every error compared with a reference",
 "C30": "bounded exhaustive enumeration of inputs of the real parser, with a monitor on the memory allocated by every execution",
 "C22": "exhaustive enumeration of requests, responses and response faults of the real command under a controlled HTTP transport",
}
PENDING = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PENDING:
        na.append(dict(property=i, reason=PENDING[i]))
        continue
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
        evidence_file=f"evidence/{i}.json",
        technique=TECH.get(i, "bounded exhaustive stateless exploration of the real code (deviation-bounded choice tree), every execution compared with an executable reference model"),
        level="model_checking",
        level_note=NOTE.get(i, REF) + "Complete within the bounds listed per space in the evidence file and in DESIGN.md; beyond them nothing is claimed."))
m = dict(version=1, setup_cmd="./check.sh --build", checks=checks, not_applicable=na,
    notes="No hooks in /repo. Repaired defects are listed in known_findings.txt.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")
