#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json
NOTE = "exhaustive within the bounds listed in evidence/<id>.json and DESIGN.md; beyond them nothing is claimed"
TECH = {
    "C01": "explicit-state model checking: exhaustive enumeration of relation trees up to a node bound against a reference model (text and message), every model trace replayed through the real parser and formatter",
    "C02": "explicit-state model checking: exhaustive enumeration of expression trees up to a depth at every position, model traces replayed through the real parser and formatter",
    "C03": "exhaustive enumeration of literal values and literal texts within stated ranges, compared with an independent calendar/number model on the real code",
    "C04": "exhaustive enumeration of type trees up to a depth at every position plus malformed spellings, compared with the reference model on the real code",
    "C05": "exhaustive enumeration of strings over the format's special characters up to a length, and of every Unicode scalar, compared with the reference model on the real code",
    "C06": "explicit-state model checking: every small set of colliding declarations x every reference spelling, resolution compared with a reference resolver, each trace replayed on the real parser and formatter",
    "C07": "explicit-state model checking: every operator stack up to a depth with every output mapping up to a width, widths and mappings predicted by a reference model, replayed on the real parser and formatter",
    "C08": "explicit-state model checking: every sequence of indented relation lines up to a length, accept/reject and resulting forest predicted by a stack-machine model, replayed on the real parser",
    "C09": "explicit-state model checking: breadth-first exploration of the section state machine over line sequences, model verdict and content replayed on the real parser for every sequence",
    "C10": "exhaustive enumeration of short token strings, of all single edits of documents covering every construct, and of single faulty lines, run on the real parser with panic, hang and blame monitors",
    "C11": "exhaustive fault enumeration: every single reflective field change (clear, default, out-of-range, other variant, duplicate, drop) at every position of plans covering every construct, and pairs of clears, run on the real formatter with panic, locality and reporting monitors",
    "C12": "exhaustive enumeration of the full product of output options over plans covering every construct, each text compared with a reference model of what every option adds and replayed through the real parser",
    "C13": "explicit-state model checking: every row count/width/filter around every threshold and every subset of line-break positions at several depths, layout and verdict predicted by a reference model, replayed on the real code",
    "C14": "explicit-state model checking: every argument list up to a length and nesting over every value kind in every extension kind, delivered to recording handlers and compared with the model, and back",
    "C15": "explicit-state model checking: every sequence of registrations and lookups up to a length against a reference map, every operation replayed on the real registry",
    "C16": "explicit-state model checking: every placement of addendum lines among relation lines up to a bound, verdict and attachment predicted by a reference model, replayed on the real parser and formatter",
    "C17": "exhaustive enumeration of conversion chains up to a length over plans covering every construct, of every single field change through each reader and writer, and of payload values x JSON spellings x descriptor orders, compared with the original message on the real code",
    "C18": "explicit-state model checking: every list of declarations up to a length over colliding anchors, names, URNs and kinds, verdict and tables predicted by a reference model, replayed on the real parser, formatter and declaration tables",
    "C19": "explicit-state and stateless model checking: every history of calls up to a length, every registration order, and every interleaving of concurrent calls at their handler entries under a controlled scheduler, each result compared with that of a fresh process",
    "C20": "exhaustive enumeration of commands, formats, file names and inputs, with a read or write fault injected at every byte position, run on the real command line in-process and as a program",
}
checks = [
    {
        "property": p,
        "quick_cmd": f"bash /verif/check.sh {p} quick",
        "thorough_cmd": f"bash /verif/check.sh {p} thorough",
        "technique": t,
        "level": "model_checking",
        "level_note": NOTE,
    }
    for p, t in sorted(TECH.items())
]
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
na = [{"property": p, "reason": "its check is still being built"} for p in ids if p not in TECH]
m = {
    "version": 1,
    "setup_cmd": "bash /verif/build.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "One Rust crate (/verif/mc) drives the real library in-process through its public API; see DESIGN.md.",
}
open("/verif/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
