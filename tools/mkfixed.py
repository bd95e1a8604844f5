#!/usr/bin/env python3
"""rewrite the `fixed` list of known_findings.json from the table below and the fix commits in /repo"""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject of the commit -> (property, what failed)
FIXED = {
    "read footprint coordinates by kind, and pad rect_delta after size":
        ("C01", "a footprint line with end before start, or a pad with rect_delta, was not read back"),
    "keep layer names with more than one dot whole": ("C01", "a layer name with two dots lost what followed the second"),
    "read back pad drills without a width": ("C01", "a pad drill with only an offset could not be read back"),
    "reject extra values in single-value footprint elements": ("C04", "(descr a b) was read as (descr a)"),
    "reject extra elements in fp-lib-table entries": ("C04", "further parts of a table entry were dropped silently"),
    "only accept hide as the last word of a board layer": ("C04", "any fourth word of a board layer was read as hide"),
    "reject unknown zone keepout values": ("C04", "an unknown zone keepout value was read as allowed"),
    "read the zone fill mode by its value": ("C03", "the fill mode of a zone was not read by its value"),
    "keep every fill_segments part of a zone": ("C03", "a second fill_segments part of a zone was lost"),
    "report empty lists as an error instead of panicking": ("C04", "an empty list () panicked the reader"),
    "write every drill height that differs from the width": ("C01", "a drill height was only written when it was positive and the width was written"),
    "order the corners of footprint line and arc bounds": ("C12", "the box of a footprint line or arc drawn right to left or bottom to top had its corners swapped"),
    "take the via size as a diameter in its bound": ("C12", "the box of a via was twice as wide as the via"),
    "swap the sides of a pad bound at every odd quarter turn": ("C12", "a pad turned by 450 degrees (as flipping makes of -90) kept its unturned box"),
    "place the bound of a component at its x position": ("C12", "the box of a schematic component started at x = y"),
    "keep rotations within one turn from any start angle": ("C13", "turning a position that was more than one turn away left it outside one turn"),
    "replace neighbouring equal blocks in net names": ("C10", "in /a/a/b only the first of two neighbouring equal blocks was replaced"),
    "refuse a schematic that ends inside a block": ("C07", "a schematic that ended inside a component, sheet, description, wire or text panicked the reader"),
    "keep blank lines of a schematic": ("C07", "a blank line between the items of a schematic panicked the reader"),
    "refuse a label line without its last word": ("C07", "a global or hierarchical label line with eight words panicked the reader"),
    "refuse too short words of a schematic field": ("C07", "a field of a component with a style word of fewer than three letters panicked the reader"),
    "refuse a symbol library with short words or missing lines": ("C07", "a symbol library with a blank line, a short style word or a missing end panicked the reader"),
    "write bold symbol fields so that they can be read": ("C06", "a bold symbol field was written with the letter I, which cannot be read back"),
    "read and write the rotation of components of any unit": ("C05", "a component of unit two or higher lost its rotation on reading"),
    "refuse wires of unknown type": ("C07", "a wire line of unknown kind was read as a plain wire"),
    "write and rename symbols with fewer than two fields": ("C06", "writing or renaming a symbol with fewer than two fields panicked"),
    "check pins against the 100 mil and 50 mil grids": ("C18", "pins were checked against grids of 10 and 5 mil instead of 100 and 50"),
    "refuse labels and notes of unknown style": ("C07", "a label or note with a style word other than ~ and Italic was read as upright"),
    "order an empty reference instead of panicking": ("C22", "the order key of an empty reference panicked"),
    "reject negative zone priorities": ("C04", "a negative zone priority was read as a huge positive one"),
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        p, w = FIXED[s[5:]]
        fixed.append("fixed: property=%s %s %s" % (p, h, w))
path = os.path.join(ROOT, "known_findings.json")
with open(path) as f:
    text = f.read()
i = text.index(' "fixed": [')
body = ",\n  ".join(json.dumps(x, ensure_ascii=False) for x in fixed)
text = text[:i] + ' "fixed": [\n  ' + body + "\n ]\n}\n"
json.loads(text)
with open(path, "w") as f:
    f.write(text)
print(len(fixed), "fixed")
