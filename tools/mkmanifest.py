"""Writes MANIFEST.json: every property with a part in lib/core.py is claimed."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "lib"))
import core

NOTE = ("The specification is checked exhaustively by TLC within the bounds written to the evidence file; executions of the real code "
        "(generated and random cases, seeded by VERIF_SEED) are judged step by step by TLC against it. Cases outside of those bounds "
        "and samples are not covered. Trusted: TLC, the driver in harness/ that records what the code did, and that the specification "
        "says what the property means.")
TECH = {
    "C01": "TLA+ predictive-parser specification (TLC: accepts = derivable on all small grammars); recorded parses validated against it",
    "C02": "TLA+ predictive-parser specification building the derivation tree; recorded trees validated against it",
    "C03": "TLA+ predictive-parser specification (TLC: error place = longest viable prefix); recorded errors validated against it",
    "C04": "TLA+ predictive-parser specification with instruction events; recorded VM runs validated against it",
    "C05": "TLA+ fixpoint specification of FIRST (TLC: = derivations on all small grammars); recorded sets validated against it",
    "C06": "TLA+ fixpoint specification of FOLLOW (TLC: = sentential forms on all small grammars); recorded sets validated against it",
    "C07": "TLA+ specification of LL(1) and its predictions; recorded tables and rejections validated against it",
    "C08": "TLA+ specification of the rule text reader; recorded readings of generated rule texts validated against it",
    "C09": "TLA+ specification of the rule text reader; recorded rejections of mutated rule texts validated against it",
    "C10": "TLA+ specification of rule reading and ignore weaving; recorded grammars validated against it",
    "C11": "TLA+ specification of the rule text reader with nested section views; recorded VM calls validated against it",
    "C12": "TLA+ specification of nested text views (TLC exhaustive on short texts); recorded operation traces validated against it",
    "C13": "TLA+ specification of the lexical readers (TLC exhaustive on short texts); recorded readings validated against it",
    "C14": "TLA+ tree specification, TLC-generated behaviours replayed into the code, recorded traces validated against it",
    "C15": "TLA+ tree specification, TLC-generated behaviours replayed into the code, recorded traces validated against it",
    "C16": "TLA+ graph specification (TLC exhaustive on small graphs); recorded operation traces validated against it",
    "C17": "TLA+ named graph specification (TLC exhaustive on small graphs); recorded operation traces validated against it",
    "C18": "TLA+ grammar builder specification (TLC exhaustive on small histories); recorded operation traces validated against it",
    "C19": "TLA+ specification of the instruction text; recorded readings validated against it",
    "C20": "TLA+ specification of both stack machines with exact 64-bit arithmetic; recorded executions validated against it",
    "C21": "TLA+ postfix calculator specification; recorded runs of the shipped calculators validated against it",
    "C22": "TLA+ parser specification without memory between parses; recorded histories of parses validated against it",
    "C23": "TLA+ specification of the tool on top of the rule text and parser specifications; recorded exit statuses validated against it",
    "C24": "TLA+ parser specification with the counting and the null machine; recorded histories of states validated against it",
    "C25": "TLA+ parser specification composed with the tree specification and tree-altering instructions; recorded views and trees validated against it",
    "C27": "TLA+ composition of the rule text, LL(1), parser, section and stack machine specifications (TLC: 8 languages compute what is written beside them); recorded languages validated against it",
    "C26": "TLA+ parser specification with the expected symbols of every rejecting state; recorded errors validated against it",
}
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in core.PARTS:
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                       "technique": TECH[p], "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": p, "reason": "its part of the specification is not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed; the drivers use the crate's public interface. See DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
