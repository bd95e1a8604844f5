#!/usr/bin/env python3
"""write MANIFEST.json for the checks that exist"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vlib import checks, edits, files, lines, programs, values  # noqa: E402,F401

TECH = "TLA+ specification (TLC); its behaviours replayed on the library, recorded library traces checked against it"
NOTES = {
    "C01": "footprints within two changes of a plain one enumerated by TLC and replayed; random footprints and respelled texts as recorded traces",
    "C02": "all forests of two sections and, over a seeded choice of names, of three; random documents at any indentation",
    "C03": "boards within one (thorough: two) changes of a plain one; random boards and respelled board texts",
    "C04": "every single-token damage of small documents; random damage of larger ones and of KiCad's own files",
    "C08": "tables within two changes, all addresses up to four characters over a nine-letter alphabet; random environments",
    "C10": "every place a board names a net, one renaming exhaustively and two over fewer names; all short net names under the block rule; random boards and renaming histories",
    "C11": "every item kind, footprints and pairs of items moved two (thorough: three) times; random boards, items and footprints",
    "C12": "every item kind on a small grid in every end point order, pairs of items, merges of three boxes; random documents",
    "C13": "every item kind under two (thorough: three) flips and turns; random footprints and items",
    "C16": "every combination of broken rules of one part; random footprints near the convention",
    "C17": "every combination of broken rules of one part, fixed twice; random footprints near the convention",
    "C05": "schematics within one (thorough: two) changes of a plain one; random schematics and respelled texts",
    "C06": "symbol libraries within one (thorough: two) changes of a plain one; random libraries and respelled texts",
    "C07": "every single line or word damage of a small schematic and symbol library; random damage of larger ones and of KiCad's own files",
    "C09": "documents of every kind with exchanged heads, leads, tails and ends; random, damaged and foreign files",
    "C14": "all histories of two edits, and of three without bare additions, over seeded names and values; random edit histories on components and in schematics",
    "C15": "hierarchies of four files in two directories over a seeded choice of shapes; random hierarchies with unreadable files",
    "C18": "symbols within two changes of one that keeps every rule; random symbols",
    "C20": "all histories of two (thorough: three) writes of seven contents to six places, three of them not writable; random histories",
    "C21": "all line ends up to six (thorough: eight) characters over four (five) letters; values of any characters; mixed lines",
    "C22": "all references up to five (thorough: six) characters over six letters, all lists up to four (five) of a seeded pool; random references up to twenty digits",
    "C24": "symbol libraries of two symbols under two (thorough: three) renamings and look-ups; random libraries",
    "C25": "small documents of every kind and spelling, every board item moved, combinations of broken rules; random, damaged and missing files through the built programs",
    "C26": "items within two changes of a plain one, every pair of kinds; random items against changed ones",
    "C27": "all sequences of three (thorough: four) constructor calls over seeded words; random build histories of footprints, boards, symbols and fields",
    "C28": "all names up to four (thorough: five) characters over a seeded alphabet, all sections, groups two deep; random names",
    "C19": "boards of two items with two edits and of three items with one, over a seeded choice of items; random boards and edit histories",
    "C23": "footprints of two items with two edits and of three items with one, over a seeded choice of items; random footprints and edit histories",
}
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
out = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check builds the harness crate against /repo's working tree, runs the TLA+ models and traces in spec/, and writes evidence/<id>.json. No hooks in /repo are needed: everything is observed through the public interface.",
}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        out["checks"].append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH,
            "level": "model_checking",
            "level_note": "bounded: " + NOTES.get(i, "see DESIGN.md"),
        })
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(out["checks"]), "checks")
