"""Variations and mutations of texts. Nothing here decides anything: the specification does."""
import copy
import re

from . import dictionary
from .gen import WORDS, lex

# parts that are right somewhere
PARTS = ["thickness 1", "at 0 0", "at 0 0 1", "layer F.Cu", "layers F.Cu B.Cu", "net 1 a", "net 1", "net_name a", "width 1", "clearance 1", "drill 1",
         "size 1 1", "tstamp 0", "status 0", "start 0 0", "end 0 1", "center 0 0", "angle 1", "xy 0 0", "pts ( xy 0 0 )", "hatch edge 1", "priority 1",
         "offset ( xyz 0 0 0 )", "rotate ( xyz 0 0 0 )", "scale ( xyz 1 1 1 )", "solder_mask_margin 1", "solder_paste_margin 1", "thermal_gap 1",
         "thermal_width 1", "zone_connect 1", "rect_delta 0 1", "hide", "locked", "justify left", "font ( size 1 1 )", "effects ( font ( size 1 1 ) )",
         "fill yes", "smoothing fillet", "radius 1", "min_thickness 1", "connect_pads ( clearance 1 )", "tedit 0", "path a", "tags a", "descr a", "attr smd",
         "die_length 1", "roundrect_rratio 1", "pinfunction a", "uuid a", "add_net a", "via_dia 1", "trace_width 1", "blind", "name a", "uri a", "disabled",
         "generator a", "zones 1", "page A4 portrait", "keepout ( tracks allowed )", "polygon ( pts ( xy 0 0 ) )", "island", "net_tie_pad_groups a", "solder_paste_margin_ratio 1", "clearance 0", "disabled yes", "hidden yes", "hide yes",
         "locked yes", "version 1", "comment a", "property a b"]
# words of the formats, with what others might write in their place
KEYWORDS = {
    "smd": ["smt", "connect"], "thru_hole": ["through_hole", "thru"], "np_thru_hole": ["npth"], "rect": ["roundrect", "square", "custom"],
    "circle": ["round"], "oval": ["ellipse"], "left": ["center", "top"], "mirror": ["bottom", "center", "mirrored"], "hide": ["visible", "hidden", "unlocked"],
    "italic": ["bold", "oblique"], "yes": ["true", "1", "solid"], "no": ["false", "0"], "allowed": ["yes", "true", "permitted"], "not_allowed": ["no", "false"],
    "F.Cu": ["In3.Cu", "Top", "F.Cu.x", "F", "f.Cu", "F.cu", "F.Copper", "In1.Cu"], "B.Cu": ["Bottom", "B.Silkscreen"], "F.SilkS": ["F.Silkscreen", "Silk"],
    "signal": ["ground", "other"], "user": ["front", "aux"], "segment": ["hatch", "arc"], "blind": ["buried", "through"], "micro": ["uvia"], "edge": ["dashed"],
    "locked": ["unlocked", "placed"], "xy": ["xyz", "pt"], "xyz": ["xy"], "start": ["begin"], "end": ["stop"], "size": ["sizes"], "center": ["centre"],
    "at": ["pos"], "width": ["stroke"], "layer": ["layers"], "layers": ["layer"], "net": ["netname"], "module": ["footprint"], "kicad_pcb": ["kicad_mod"],
    "fp_lib_table": ["sym_lib_table"], "lib": ["library"], "pts": ["points"], "font": ["fonts"], "effects": ["effect"], "offset": ["at"], "drill": ["hole"],
    "thickness": ["bold"], "justify": ["align"], "clearance": ["creepage"], "pad": ["pads"], "fp_text": ["fp_texts", "fp_text_box"], "fp_line": ["fp_rect"],
    "fp_arc": ["fp_curve"], "model": ["embedded"], "tstamp": ["uuid"], "tedit": ["tedits"], "angle": ["mid"], "descr": ["description"], "tags": ["keywords"],
    "attr": ["attributes"], "type": ["types"], "uri": ["url"], "options": ["option"], "name": ["names"], "scale": ["scales"], "rotate": ["rotation"],
    "zone_connect": ["zone_layer_connections"], "net_name": ["netname"], "hatch": ["hatches"], "connect_pads": ["connect_pad"], "min_thickness": ["min_width"],
    "fill": ["filled"], "polygon": ["polygons"], "filled_polygon": ["fill_polygon"], "keepout": ["keepouts"], "tracks": ["track"], "vias": ["via"],
    "copperpour": ["pads"], "arc_segments": ["arc_segment"], "thermal_gap": ["thermal"], "thermal_bridge_width": ["thermal_width"], "smoothing": ["smooth"],
    "radius": ["radii"], "mode": ["modes"], "priority": ["priorities"], "via": ["vias"], "add_net": ["nets"], "trace_width": ["track_width"],
}

BLANKS = [" ", "  ", "\n", "\n  ", "\t", " \t ", "\r\n", "\n\n    "]


# ------------------------------------------------------------------------- s-expressions as trees

def tree(text):
    """nested lists of raw tokens; only for balanced text"""
    stk = [[]]
    for t in lex(text):
        if t == "(":
            stk.append([])
        elif t == ")":
            x = stk.pop()
            stk[-1].append(x)
        elif t[0] in " \t\r\n":
            pass
        else:
            stk[-1].append(t)
    return stk[0][0]


def show(t, rng=None):
    """text of a tree; random blanks when given a random source"""
    out = []

    def sp(must=True):
        if rng is None:
            return " "
        if not must and rng.random() < 0.5:
            return ""
        return rng.choice(BLANKS[:4]) if rng.random() < 0.7 else rng.choice([" ", "\n", "\r\n", "\n\n    "])

    def go(x):
        if isinstance(x, list):
            out.append("(")
            if rng and rng.random() < 0.1:
                out.append(sp())
            for i, y in enumerate(x):
                if i:
                    # a list needs no blank before it
                    out.append(sp(must=not isinstance(y, list)))
                go(y)
            if rng and rng.random() < 0.1:
                out.append(sp())
            out.append(")")
        else:
            out.append(x)

    go(t)
    return "".join(out)


def nodes(t, path=()):
    yield path, t
    if isinstance(t, list):
        for i, y in enumerate(t):
            yield from nodes(y, path + (i,))


def get(t, path):
    for i in path:
        t = t[i]
    return t


NUM = re.compile(r"^-?\d+(\.\d+)?$")


def respell_number(w, rng):
    neg = w.startswith("-")
    b = w[1:] if neg else w
    k = rng.randrange(6)
    if k == 0:
        b = b + ("0" if "." in b else ".0")
    elif k == 1:
        b = "0" + b
    elif k == 2:
        b = b + "e0"
    elif k == 3 and b.startswith("0."):
        b = b[1:]
    elif k == 4 and not neg:
        return "+" + b
    elif k == 5:
        b = b + ("000" if "." in b else ".")
    return ("-" if neg else "") + b


def respell_word(w, rng):
    if w.startswith('"'):
        inner = w[1:-1]
        if inner and not any(c in '() \t\r\n"' for c in inner):
            return inner
        return w
    if rng.random() < 0.5 and NUM.match(w):
        return respell_number(w, rng)
    if '"' not in w:
        return '"' + w + '"'
    return w


# words any of which may stand in some place
FAMILIES = [["smd", "thru_hole", "np_thru_hole"], ["rect", "circle", "oval", "trapezoid"], ["left", "right", "mirror"], ["yes", "no"], ["allowed", "not_allowed"],
            ["signal", "power", "mixed", "jumper", "user"], ["segment", "polygon"], ["blind", "micro"], ["none", "edge", "full"], ["hide", "locked", "italic"],
            ["xy", "start", "end", "size", "center", "rect_delta", "at", "offset", "scale", "rotate"], ["tracks", "vias", "copperpour"],
            ["F.Cu", "B.Cu", "*.Cu", "In1.Cu", "Dwgs.User", "Edge.Cuts", "Margin", "F.Fab", "F.CrtYd", "F.Adhes", "Cmts.User", "Eco1.User", "F.Mask", "F.Paste", "F.SilkS"],
            ["Wire", "Bus", "Notes"], ["Label", "GLabel", "HLabel"], ["Input", "Output", "BiDi", "3State", "UnSpc"], ["Connection", "NoConn"], ["Italic", "~"]]


def siblings(w):
    """the other words that may stand in place of a word, and words almost like them"""
    v = []
    for f in FAMILIES:
        if w in f:
            for s in f:
                if s != w:
                    v += [s, s.upper(), s.lower(), s.capitalize(), s.swapcase(), s + "s", s + "x", s[:-1], s[:1], s[::-1]]
    return [x for x in v if x]


def spellings(w):
    """what else might be written in place of a word"""
    if NUM.match(w) or re.match(r"^[0-9A-F]+$", w):
        v = ["-1", "-2", "-1.5", "1.5", w + "a", "a" + w, "+" + w, "0x1", "1e3", "1e400", "nan", "inf", "-inf", "NaN", "infinity", "1_0", "1,5", ".5", "5.", "", "-",
             "+", ".", " " + w, w + " ", "\uff11", "99999999999999999999", "-99999999999999999999", "11111111111111111", "FFFFFFFFFFFFFFFFF", "8000000000000000",
             "0b1", "1f", "1.0f", "1/2", "1mm", "1e", "01", "0" * 40 + "1", "1.", "--1", "1-", "1e+2", "1E5", "256", "32768", "4294967296", "0.0", "-0", "%", "G", "yes",
             "no", w + w, "1:2", "#1", "auto", "1\u00a0", "\u0661"] + dictionary.NUMBERS
    else:
        v = [w.upper(), w.lower(), w.capitalize(), w.swapcase(), w + "s", w + "x", w + "1", w + ".", w[:-1], w[1:], w[:1], w + w, w[::-1], "x" + w, "_" + w, "*" + w,
             w.replace("_", "-"), w.replace("_", ""), w.replace("_", " "), w.replace("_", "__"), w.replace("-", "_"), w.replace(".", ""), w.replace(".", ".."), w.replace(".", "_"),
             " " + w, w + " ", w + "\u00a0", "", "0", "1", "-1", "none", "default", "p" + w[1:], w[:3], w[:4], w[-3:], w.title()] + KEYWORDS.get(w, [])
        if "." in w:
            a, b = w.split(".", 1)
            v += [a, b, b + "." + a, a.lower() + "." + b, a + "." + b.upper(), a + "." + b.lower(), "X." + b, a + ".X", a[:1] + "." + b, a + "1." + b, "." + b, a + ".", a + "." + b + "." + b, "In9." + b, a + "&B." + b]
    return sorted(set(x for x in v + siblings(w) + [t for t in dictionary.TOKENS if not set(t) & set("()")] if x != w))


def vary(text, rng):
    """the same content in another spelling: blanks, quotes, number spelling"""
    t = tree(text)
    for p, x in list(nodes(t)):
        if p and not isinstance(x, list) and rng.random() < 0.15:
            get(t, p[:-1])[p[-1]] = respell_word(x, rng)
    return show(t, rng)


def reshape(text, rng):
    """optional parts left out, parts in another order, parts repeated"""
    t = tree(text)
    for _ in range(rng.randint(1, 3)):
        ls = [p for p, x in nodes(t) if isinstance(x, list) and p]
        if not ls:
            break
        p = rng.choice(ls)
        par = get(t, p[:-1])
        k = rng.randrange(4)
        if k <= 1:
            del par[p[-1]]
        elif k == 2:
            q = rng.randrange(1, len(par))
            x = par.pop(p[-1])
            par.insert(q, x)
        else:
            par.insert(rng.randint(1, len(par)), get(t, p))
    return show(t)


def mutate_tree(text, rng):
    """word-level damage that keeps the parentheses balanced"""
    t = tree(text)
    ns = [p for p, _ in nodes(t) if p]
    for _ in range(rng.choice([1, 1, 1, 2])):
        if not ns:
            break
        p = rng.choice(ns)
        try:
            par = get(t, p[:-1])
            x = par[p[-1]]
        except (IndexError, TypeError):
            continue
        if not isinstance(par, list):
            continue
        k = rng.randrange(14)
        if k == 0:
            del par[p[-1]]
        elif k == 10:
            # a part of this text put elsewhere
            par.insert(p[-1] + (1 if p[-1] == 0 else 0), copy.deepcopy(rng.choice(list(nodes(t))[1:])[1] if rng.random() < 0.5 else tree("(" + rng.choice(PARTS) + ")")))
        elif k == 11 and not isinstance(x, list):
            par[p[-1]] = rng.choice([x.upper(), x.lower(), x.capitalize(), x.swapcase(), x + "s", x[:-1] or "x", x + x]) or "x"
        elif k == 12 and not isinstance(x, list):
            par[p[-1]] = rng.choice(KEYWORDS.get(x) or sorted(KEYWORDS))
        elif k == 13 and not isinstance(x, list):
            par[p[-1]] = rng.choice([w for _, w in nodes(t) if not isinstance(w, list)])
        elif k == 1:
            par.insert(p[-1], x)
        elif k == 2:
            par[p[-1]] = rng.choice([w for w in WORDS if w and not any(c in '() "' for c in w)])
        elif k == 3:
            par.insert(p[-1], [])
        elif k == 4:
            par[p[-1]] = []
        elif k == 5:
            par[p[-1]] = [x]
        elif k == 6:
            par.insert(p[-1] + 1, rng.choice(["hide", "extra", "1", "x.y", '""', "1.5.2", "--1", "0x10", "1_0", "é"]))
        elif k == 7 and isinstance(x, list) and x:
            par[p[-1]:p[-1] + 1] = x
        elif k == 8 and not isinstance(x, list):
            par[p[-1]] = rng.choice(["12a", "", "1e", ".", "-", "1,5", "99999999999999999999", "1e400", "abc"]) or '""'
        elif k == 9 and isinstance(x, list) and x and not isinstance(x[0], list):
            x[0] = rng.choice([t for t in dictionary.TOKENS if not set(t) & set("()")] + ["xy", "start", "end", "size", "center", "rect_delta", "width", "layer", "net", "module", "foo",
                               "at", "thickness", "drill", x[0] + "s"])
    return show(t)


def mutate_text(text, rng):
    """character-level damage: cut, unbalanced, stray characters"""
    k = rng.randrange(8)
    n = len(text)
    if k == 0:
        return text[:rng.randint(0, n)]
    if k == 1:
        return text[rng.randint(0, n):]
    i = rng.randint(0, max(0, n - 1))
    if k == 2:
        ps = [j for j, c in enumerate(text) if c in '()"']
        if ps:
            j = rng.choice(ps)
            return text[:j] + text[j + 1:]
    if k == 3:
        return text[:i] + rng.choice(["(", ")", '"', "()", "))", "(("]) + text[i:]
    if k == 4:
        return text[:i] + rng.choice(["\t", "\n", "\r", "\\", "é", "日", "\x00", ";", "#", "\\\"", " ", "'"]) + text[i:]
    if k == 5:
        return text + rng.choice([" trailing", ")", "(", " (module b)", "\n\n", '"'])
    if k == 6:
        return rng.choice([" ", "\n", "\t", "x", '"q"', ")", "﻿", "()", "( )", "(())", "((module a))"]) + text
    j = rng.randint(i, min(n, i + 20))
    return text[:i] + text[j:]
