#!/usr/bin/env python3
"""Writes the table of planted bugs (DESIGN.md, section 6) to standard output.
This is documentation only: no check reads seeded/."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
# missed when planted; what was added to the check
MISSED = {
    "assign-same-shape": "pairs of tensors of every shape and order take over each other's value",
    "assign-aliased": "copies from the tensor's own buffer, strings beyond the small-string size",
    "header-cache": "arrays of equal type and rank one after the other",
    "repeat-nothing": "a grammar of run-length sequences of code lengths",
    "mirror-short": "repetitions around the end of the window",
    "adaptive-level": "compressing incompressible contents is an operation of the alphabet",
    "blockwise-read": "files of 70 KB to 1.2 MB cut around block sizes",
    "eocd64-adjacent": "all forms of the end records",
    "peek-prefix-path": "headers and contents beyond the sizes of buffers",
    "until-signature": "reads cut short at any byte and followed by a failure",
    "stale-ravel": "tensors used by turns that take over each other's value; tensors are looked at between operations",
    "global-locale": "a global locale of the program's own, two preemptions where the state of the process changes",
    "appends-strings": "destinations that hold strings already",
    "stale-errno": "every operation in 19 states the program may be in (errno, rounding, closed descriptors, unwinding, ...)",
}
d = os.path.join(here, "..", "seeded")
rows = {}
for n in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, n, "meta.json")))
    rows.setdefault(m["property"], []).append((n, m["what_it_breaks"]))
print("| caught by | planted bugs (missed at first: *) |\n|---|---|")
for p in sorted(rows):
    print("| %s | %s |" % (p, "; ".join("`%s`%s (%s)" % (n, "*" if n in MISSED else "", t) for n, t in rows[p])))
print("\nWhat was added for those missed at first:\n")
for n in sorted(MISSED):
    if os.path.isdir(os.path.join(d, n)):
        print("* `%s`: %s" % (n, MISSED[n]))
