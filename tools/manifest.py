#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
HOOKS = ["b481e5a", "b5242c2", "0812b7b", "0f9e99f"]
T = {
 "P01": "exhaustive exploration of all small grammars x inputs on the real parser against a least-fixed-point recogniser",
 "P02": "explicit-state subset construction over returned forests (tree automata), for all small grammars x inputs",
 "P03": "explicit-state subset construction over returned forests (tree automata), for all small grammars x inputs",
 "P04": "exhaustive exploration of parse histories in one store, forests compared as tree automata",
 "P05": "exhaustive exploration of all small grammars against a count of empty derivations by fixed point",
 "P06": "exhaustive exploration of all small grammars against reachability over leftmost symbols",
 "P07": "exhaustive exploration of all small grammars against reachability over adjacent symbols",
 "P08": "explicit-state exploration of LR automata of all small grammars, real states compared with model states",
 "P09": "exhaustive exploration of builder histories against the definition of well-formedness",
 "P10": "exhaustive exploration of builder histories, every accessor compared with the model grammar",
 "P11": "exhaustive exploration of all small grammars, structure and bounded language compared with the model",
 "P12": "exhaustive exploration of all small grammars, productions, languages and derivation counts compared with the model",
 "P13": "exhaustive exploration of all small grammars and name lengths against the definition of the printed form",
 "P14": "exhaustive exploration of pass dependency plans x request histories against a recursive model",
 "P15": "exhaustive exploration of items, item sets and step relations against sets of triples",
 "P16": "explicit-state exploration of operation histories of the real store against a set model",
 "P17": "stateless model checking of the real store: all interleavings under a controlled scheduler, linearizability and deadlock oracle",
 "P18": "exhaustive exploration of store contents, parsed DOT compared with the reachable graph up to renaming",
 "P19": "exhaustive exploration of read histories against the token sequence",
 "P20": "exhaustive exploration of texts x read histories against vectors of characters",
 "P21": "exhaustive exploration of texts and their ranges against positions counted from the start",
 "P22": "exhaustive exploration of operation histories of two typed maps against a map model",
 "P23": "exhaustive exploration of graphs, functions and propagation problems against plain closures",
 "P24": "exhaustive exploration of insertion histories against sets of pairs",
 "P25": "exhaustive exploration of histories over a pool of names against plain strings",
 "P26": "exhaustive exploration of insertion histories of two maps against an in-order merge model",
 "P27": "exhaustive exploration of helper expressions, formats and writer failure points against the standard builders",
 "P29": "stateless model checking of whole parses on the real store: all schedules up to a preemption bound under a controlled scheduler, forests compared as tree automata",
 "P30": "exhaustive exploration of all small grammars x chains of transformations x inputs, forests taken back to the original compared as tree automata",
 "P28": "exhaustive exploration of all pairs of values of each type, made in every way, against what they were made of",
}
N = {
 "P01": "Every grammar and input in the listed spaces is parsed by the real Earley parser; nothing outside them. Trusts the naive recogniser.",
 "P02": "Decides all trees of any height of each forest in the listed spaces. Trusts the derivation automaton built naively from the grammar.",
 "P03": "Decides all derivations of any height for each grammar and input in the listed spaces. Trusts the derivation automaton built naively from the grammar.",
 "P04": "All histories up to the stated length over a menu of parses. A parse alone is the reference for the same parse in a shared store; that it is right is P01 to P03.",
 "P17": "All schedules (or all up to the stated number of preemptions) of the listed programs, under reader- and writer-preferring locks. Assumes that the store synchronises through primitives of std::sync only, and atomics are explored as sequentially consistent; runs with these replaced under cfg(bongo_verif = \"sync\").",
 "P29": "All schedules up to the stated number of preemptions of the listed sets of parses. A parse alone is the reference for the same parse together with others; runs with the primitives of std::sync replaced under cfg(bongo_verif = \"sync\").",
 "P30": "Every grammar, chain of up to two transformations and input in the listed spaces; parsing wraps once more. Productions are traced back by the names of their elements. Reads follow sets and LR states through guarded accessors.",
 "P07": "Every grammar in the listed spaces. Reads the follow sets through a guarded accessor.",
 "P08": "Every grammar, seed and state within four shifts in the listed spaces. Reads LR states through guarded accessors.",
 "P21": "Every text in the listed spaces and every range of each. Reads positions through a guarded accessor; trusts unicode-segmentation for clusters.",
 "P26": "Every history in the listed bounds. Entries are made through a guarded constructor.",
}
D = "Every case within the stated bounds is run on the real code, nothing outside them. Trusts the reference model in the harness."
checks = []
for l in open("properties.jsonl"):
    p = json.loads(l)["id"]
    checks.append({"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
                   "technique": T[p], "level": "model_checking", "level_note": N.get(p, D)})
m = {"version": 1, "setup_cmd": "./setup",
 "hooks": {"guard": "cfg bongo_verif",
  "enable": "RUSTFLAGS='--cfg bongo_verif=\"follows\"' (P07, P30), \"lalr\" (P08, P30), \"sync\" (P17, P29), \"textpos\" (P21), \"mergeables\" (P26); the other checks build without",
  "source_commits": HOOKS},
 "checks": checks, "not_applicable": [],
 "notes": "One harness crate, harness/, explores the real crate in /repo; ./check builds it from /repo's working tree into target/<property>. Genuine defects found are repaired in /repo (fix: commits) and listed in known_findings.txt."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
