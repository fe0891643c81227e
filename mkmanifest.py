#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
PARSE = ("Bounded model checking of the labelled grammar and the parser machine against each other (TLC, exhaustive within the bounds of the "
         "plan, random beyond), every behaviour replayed on the real parser and compared token by token; recorded parses of mutated "
         "declarations validated against the machine. Nothing is claimed beyond the explored inputs; trusts TLC, proc_macro2's "
         "fallback streams and the projection in harness/src/proj.rs.")
SPECIAL = {
    "C13": "All histories of up to 4 edits from 8 initial lists (TLC, exhaustive) and random histories of up to 40 edits, each replayed on the real Punctuated and compared after every step.",
    "C14": "All edit sequences of the bounds of the plan on generated declarations (TLC), each applied to the real code; what it prints is compared with the specification's document and parsed back.",
    "C15": "Inline arguments and derived where clauses of every generated declaration before and after edits, compared with the specification's.",
    "C16": "Every query method on every generated item, at every node, compared with the specification's answers (VenialView!Obs).",
    "C19": "As for the parser, with WhereClausePredicate::parse as the entry point: all token strings over the alphabet of the template up to the bound of the plan, generated predicates with slips, random ones and recorded traces.",
    "C20": "The specification is checked to be symmetric under renaming of names and literals (TLC, VenialGen!Symmetric); every behaviour is then replayed in two spacings and up to four wordings, which all have to be read as the specification says.",
    "C21": "Pairs of generated declarations (TLC: all within the bounds of the plan, random beyond) with parts exchanged and removed as the specification says; the same is done to the real items through their public fields, and what they print is compared token by token, with spacing and span, and parsed back.",
    "C17": "All histories of creating, cloning and combining errors within the bounds of the plan, and random ones of up to 40 steps, replayed on the real Error.",
}
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./run check {i} quick",
        "thorough_cmd": f"./run check {i} thorough",
        "technique": "TLA+ specification checked with TLC; its behaviours replayed into the code" + ("" if i in ("C13", "C14", "C15", "C16", "C17", "C20", "C21") else ", recorded traces of the code validated against it"),
        "level": "model_checking",
        "level_note": SPECIAL.get(i, PARSE),
    })
m = {"version": 1, "setup_cmd": "./run setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed through the public API. Bounds per property and tier: plan.py; see DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
