"""Schematics, symbol libraries, components."""
import json

from . import dictionary, gen
from . import text as T
from .checks import ODD_TEXTS, check, consts, pick, sample_texts, tla

TEXTS = ["a", "two words", "", "x)y", "50%", "'q'", "-1.50", "é~#", " s ", "$Comp", "\t"]
NAMES = ["R", "#PWR01", "~x", "1", "a.b-c", "F", "$EndComp", "é(1)"]
INTS = ["0", "1", "-1", "12345", "10", "-250", "100"]
FLOATS = ["0.5", "-12.25", "0.001"]


def line_history(kind):
    def h(e):
        steps = [{"op": "new", "kind": kind, "doc": e["doc"]}, {"op": "ser", "indent": 0}, {"op": "reparse", "indent": 0}]
        return [(steps, ["ok", {"ok": e["lines"]}, {"ok": e["doc"]}])]
    return h


def line_model(c, kind, changes, part):
    c.model(part, "MC_Lines", line_history(kind),
            consts(Texts=pick(c, "texts", TEXTS, ["", "two words", "a"], c.n(3, 7)), Names=pick(c, "names", NAMES, ["#PWR01"], c.n(2, 5)),
                   Ints=pick(c, "ints", INTS, ["0", "-1"], c.n(2, 4)), Floats=pick(c, "floats", FLOATS, ["0.5"], c.n(1, 2)),
                   Which=kind, Changes=changes, Echo=False), ["ReadBack", "LinesAgain", "Emit"], heap="12g")


def line_roundtrips(c, kind, n, part):
    g = c.lines(part)
    hs = []
    for i in range(n):
        hs.append([{"op": "new", "kind": kind, "doc": g.linedoc(kind)}, {"op": "get"}, {"op": "ser", "indent": 0},
                   {"op": "reparse", "indent": 0}, {"op": "ser", "indent": 0}])
    c.record(part, "TraceLines", hs)
    hs = []
    for key in gen.LISTS[kind]:
        for d in gen.grown(g, lambda: g.linedoc(kind), key, c.n(1, 5)):
            hs.append([{"op": "new", "kind": kind, "doc": d}, {"op": "ser", "indent": 0}, {"op": "reparse", "indent": 0}])
    c.record(part + " with a long list or an entry again", "TraceLines", hs)


def line_texts(c, kind, n, part, hi=3):
    g = c.lines(part + "/base")
    outs = c.harness([[{"op": "new", "kind": kind, "doc": g.linedoc(kind, hi)}, {"op": "ser", "indent": 0}] for _ in range(n)])
    return ["\n".join(o[1]["ok"]) for o in outs if len(o) > 1 and isinstance(o[1], dict) and "ok" in o[1]]


BLOCKS = {"sch": ("$Comp", "$EndComp"), "lib": ("DEF", "ENDDEF")}


def cut_lines(text, kind, r, n=4):
    """a KiCad file reduced to a few of its blocks"""
    ls = text.split("\n")
    if kind == "sch":
        end = ls.index("$EndDescr") + 1
        head, body, i = ls[:end], [], end
        while i < len(ls) and ls[i] != "$EndSCHEMATC":
            j = i + 1
            if ls[i] in ("$Comp", "$Sheet"):
                while not ls[j - 1].startswith("$End"):
                    j += 1
            elif ls[i].split(" ")[0] in ("Wire", "Text", "Entry"):
                j += 1
            body.append(ls[i:j])
            i = j
        foot = ["$EndSCHEMATC", ""]
    else:
        head, body, i = ls[:3], [], 3
        while i < len(ls) and ls[i] != "#End Library":
            j = i
            while ls[j] != "ENDDEF":
                j += 1
            body.append(ls[i:j + 2])
            i = j + 2
        foot = ["#End Library", ""]
    if len(body) > n:
        body = [body[i] for i in sorted(r.sample(range(len(body)), n))]
    return "\n".join(head + [x for b in body for x in b] + foot)


def relined(t, kind, r):
    """another spelling of the same lines: more blanks, other line ends, quotes where none are needed, optional parts left out"""
    ls = t.split("\n")
    out = []
    for x in ls:
        k = r.random()
        if k < 0.15 and " " in x and '"' not in x:
            i = x.index(" ", 1) if " " in x[1:] else 0
            x = x[:i] + " " * r.randint(1, 3) + x[i:] if i else x
        elif k < 0.2 and x[:2] in ("L ", "P ", "S ", "U ") and '"' not in x:
            w = x.split(" ")
            j = r.randrange(1, len(w))
            w[j] = '"' + w[j] + '"'
            x = " ".join(w)
        elif k < 0.25:
            x = x + " "
        elif k < 0.28 and x.startswith("\t"):
            x = x.replace(" ", "\t")
        elif k < 0.3 and (x.startswith("F ") or x[:2] in ("F0", "F1", "F2", "F3", "F4")):
            x = x + ' "Extra"'
        out.append(x)
    if kind == "sch" and r.random() < 0.15 and "$EndDescr" in out:
        a, b = next(i for i, x in enumerate(out) if x.startswith("$Descr")), out.index("$EndDescr")
        if r.random() < 0.5:
            del out[a:b + 1]
    if kind == "lib" and r.random() < 0.3 and "DRAW" in out:
        i = before_draw(out)
        out[i:i] = r.choice([["$FPLIST", " R_*", "$ENDFPLIST"], ["$FPLIST", "$ENDFPLIST"], ["ALIAS"], ["ALIAS \"\" x"]])
    if r.random() < 0.1:
        out = [x for x in out if x not in ("$EndSCHEMATC", "#End Library")]
    s = r.choice(["\n", "\n", "\n", "\r\n"]).join(out)
    return s + r.choice(["", "", "\n", "x"]) if r.random() < 0.2 else s


def before_draw(ls):
    """the place of the footprint list of the first symbol: before its aliases and its drawing"""
    i = ls.index("DRAW")
    return i - 1 if i and ls[i - 1].startswith("ALIAS") else i


def torn(t, r):
    """a text with damage at line, word and character level"""
    ls = t.split("\n")
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        if not ls:
            break
        i = r.randrange(len(ls))
        k = r.random()
        w = ls[i].split(" ")
        if k < 0.12:
            del ls[i]
        elif k < 0.2:
            ls.insert(i, r.choice(ls))
        elif k < 0.28:
            ls = ls[:i]
        elif k < 0.4:
            del w[r.randrange(len(w))]
            ls[i] = " ".join(w)
        elif k < 0.45:
            j = r.randrange(len(w))
            w[j] = r.choice(LINE_WORDS.get(w[j], []) + [w[j].swapcase(), w[j].lower(), w[j].upper(), w[j] + "s", w[j] * 2])
            ls[i] = " ".join(w)
        elif k < 0.5:
            j = r.randrange(len(w))
            m = r.randrange(max(1, len(w[j])))
            w[j] = w[j][:m] + r.choice("abcdfghilnorstuvwxyABCDFGHILNORSTUVWXY~-0") + w[j][m + 1:]
            ls[i] = " ".join(w)
        elif k < 0.65:
            w[r.randrange(len(w))] = r.choice(["x", "", "1.5", "-", "N", "99999999999999999999", "H", '"', '""', "C", "CN", "0", "é", "0x1", "+3", "007", "1e2", "F", "F9"])
            ls[i] = " ".join(w)
        elif k < 0.75:
            w.insert(r.randrange(len(w) + 1), r.choice(["x", "1", '"a b"', '"', "N"]))
            ls[i] = " ".join(w)
        elif k < 0.9 and ls[i]:
            j = r.randrange(len(ls[i]))
            ls[i] = ls[i][:j] + r.choice(["", "", " ", '"', "x", "é", "\t"]) + ls[i][j + 1:]
        elif k < 0.95:
            ls.insert(i, r.choice(["", " ", "$Comp", "$Sheet", "$Descr", "Wire", "Text", "Text Label 1 2 3 4 ~", "Text GLabel 1 2 3 4 ~ 0", "Connection ~", "Wire x Line",
                                   "$EndComp", "DRAW", "ENDDEF", "#", "X", "F", "F 0", "$FPLIST", "é"] + dictionary.WORDS))
        else:
            ls[i] = ls[i].upper() if r.random() < 0.5 else ls[i].lower()
    s = "\n".join(ls)
    if r.random() < 0.15 and s:
        s = s[:r.randrange(len(s))]
    return s


def parses(kind, ts):
    return [[{"op": "parse", "kind": kind, "text": t}] for t in ts]


def respelled_lines(c, kind, n, part):
    r = c.rng(part)
    base = line_texts(c, kind, n, part)
    ss = sample_texts(kind)
    ts = []
    for i, t in enumerate(base):
        if ss and i % 3 == 0:
            t = cut_lines(r.choice(ss), kind, r)
        ts.append(relined(t, kind, r))
    hs = [[{"op": "parse", "kind": kind, "text": t}, {"op": "ser", "indent": 0}] for t in ts]
    # what was read cannot be written if nothing was read
    outs = c.harness([h[:1] for h in hs])
    hs = [h if isinstance(o[0], dict) and "ok" in o[0] else h[:1] for h, o in zip(hs, outs)]
    c.record(part, "TraceLines", hs)


# texts, words and numbers that a special case might be made of
ODD_TEXTS = [w for w in ODD_TEXTS if "\\" not in w] + TEXTS
ODD_NAMES = NAMES + gen.PLAIN + ["A_b-C.d", "x" * 33, "y" * 130, "a\u00a0b", "r1", "R", "R01", "U?", "#FLG01", "#FLG", "#", "##", "Lib:Part", "A4", "A0", "User", "PWR_FLAG", "~", "~~",
                              "a~b", "_", "0R", "none", "N", "Y"] + dictionary.TOKENS
ODD_INTS = INTS + ["2", "3", "9", "50", "99", "255", "256", "999", "1000", "32767", "32768", "65535", "65536", "99999", "1000000", "2147483647", "2147483648", "4294967296", "-99999",
                   "-2147483649", "1000000000000"] + [str(n) for n in dictionary.INTS]
ODD_FLOATS = FLOATS + ["0.0001", "-0.0001", "0.1", "99.9999999", "1234.5678", "-1000.5", "0.30000000000000004"] + dictionary.NUMBERS


def line_survey(c, kind):
    """every field of every item, one at a time, with every such text, word and number"""
    c.model("every field with odd values: " + kind, "MC_Lines", line_history(kind),
            consts(Texts=set(ODD_TEXTS), Names=set(ODD_NAMES), Ints=set(ODD_INTS), Floats=set(ODD_FLOATS), Which=kind, Changes=1, Echo=True),
            ["ReadBack", "LinesAgain", "Emit"], heap="12g")


@check("C05")
def c05(c):
    line_model(c, "sch", c.n(1, 2), "schematics within %d changes of a plain one" % c.n(1, 2))
    line_survey(c, "sch")
    line_roundtrips(c, "sch", c.n(1000, 9000), "random schematics")
    respelled_lines(c, "sch", c.n(600, 6000), "respelled schematic texts")


@check("C06")
def c06(c):
    line_model(c, "lib", c.n(1, 2), "symbol libraries within %d changes of a plain one" % c.n(1, 2))
    line_survey(c, "lib")
    line_roundtrips(c, "lib", c.n(1000, 9000), "random symbol libraries")
    respelled_lines(c, "lib", c.n(600, 6000), "respelled symbol library texts")


# words of the formats, with what others might write in their place
LINE_WORDS = {
    "Wire": ["Bus", "Entry", "Track"], "Bus": ["Wire2"], "Line": ["Lines", "Dotted", "Bus"], "Notes": ["Note", "Dotted"], "Label": ["Labels", "NetLabel", "Power"],
    "GLabel": ["Glabel", "PLabel"], "Input": ["In", "Passive"], "Output": ["Out"], "Connection": ["Junction"], "NoConn": ["NoConnect"], "~": ["+", "/"], "Italic": ["Bold"],
    "$Comp": ["$Component", "$Cmp"], "$EndComp": ["$EndCmp"], "$Sheet": ["$Sheets", "$Hsheet"], "$EndSheet": ["$EndSheets"], "$Descr": ["$Desc"], "$EndDescr": ["$EndDesc"],
    "$EndSCHEMATC": ["$EndSCHEMATIC"], "Sheet": ["Page"], "Title": ["Titles"], "Date": ["Dates"], "Rev": ["Revision"], "Comp": ["Company"], "Comment1": ["Comment", "Comment5"],
    "encoding": ["charset"], "utf-8": ["utf8", "latin1"], "EELAYER": ["LAYER"], "END": ["STOP"], "DEF": ["DEFINE", "SYM"], "DRAW": ["DRAWING"], "ENDDRAW": ["END"],
    "ENDDEF": ["END"], "ALIAS": ["ALIASES"], "EESchema": ["KiCad", "Eeschema"], "EESchema-LIBRARY": ["EESchema-DOCLIB", "KiCad-LIBRARY"], "Version": ["Ver"],
    "Schematic": ["Board"], "File": ["Files"], "U": ["V"], "P": ["Q"], "S": ["T"], "F0": ["F", "F00"], "F1": ["F 1", "G1"], "2": ["3", "4"], "2.3": ["2.4", "3"], "#": ["##"],
    "#End": ["#end"], "Library": ["library"], "F": ["G"], "N": ["M", "O"], "Y": ["Z"], "H": ["D"], "V": ["W"], "CNN": ["CIB", "CNI"], "L": ["K"], "AR": ["AS"],
}


def line_words(c, name, n):
    r = c.rng(name)
    out = []
    for w in sorted(LINE_WORDS):
        v = sorted(set(x for x in (w.upper(), w.lower(), w.capitalize(), w.swapcase(), w + "s", w + "x", w[::-1], w + w) if x and x != w))
        out.append("(%s :> %s)" % (tla(w), tla(set(LINE_WORDS[w]) | set(r.sample(v, min(n, len(v)))))))
    return " @@ ".join(out)


CODES = [x for x in "abcdfghiklmnoprstuvwxyzABCDFGHIKLMNOPRSTUVWXYZ~"]


def every_line_word(c, kind):
    """every word of every kind of line, one at a time, in many wrong and unusual spellings"""
    base = []

    def h(e):
        base[:] = e["lines"]
        return [([{"op": "parse", "kind": kind, "text": "\n".join(e["lines"]) + "\n"}], [e["out"]])]
    c.model("plain text: " + kind, "MC_LineDamage", h, dict(consts(Texts={"a"}, Names={"R"}, Ints={"0"}, Floats={"0.5"}, Which=kind, Damages=0, Stray=set(), Codes=set()),
                                                          Swapped='("" :> {})'), ["Emit"])
    # each block on its own
    ts = []
    if kind == "sch":
        a, b = next(i for i, x in enumerate(base) if x.startswith("$Descr")), base.index("$EndDescr") + 1
        head, foot, body = base[:a], ["$EndSCHEMATC"], base[b:-1]
        blocks, i = [[], base[a:b]], 0
        while i < len(body):
            j = i + 1
            if body[i] in ("$Comp", "$Sheet"):
                while not body[j - 1].startswith("$End"):
                    j += 1
            elif body[i].split(" ")[0] in ("Wire", "Text", "Entry"):
                j += 1
            blocks.append(body[i:j])
            i = j
        ts = [(head + x + foot, range(len(head), len(head) + len(x)) if x else range(len(head))) for x in blocks]
    else:
        ts = [(base, range(len(base)))]
    seen = set()
    out = []
    for ls, rows in ts:
        for i in rows:
            line = ls[i]
            w = line.split(" ")
            for j, x in enumerate(w):
                q = x.strip('"')
                key = (w[0], j if not T.NUM.match(x) else min(j, 12), len(w), x)
                if key in seen:
                    continue
                seen.add(key)
                for v in T.spellings(q) + LINE_WORDS.get(q, []):
                    out.append((ls, i, " ".join(w[:j] + [x.replace(q, v, 1) if q else '"' + v + '"' if x else v] + w[j + 1:])))
            for v in (line + " x", line + " x y", line + ' "a" "b"', line + " 1 2 3", line + " 1", line + ' "', line + ' ""', " " + line, "\t" + line, line.replace(" ", "\t"), line.replace(" ", "  "), line + "\t", line + " ", line.upper(),
                      line.lower(), line + ":", line + "1", "#" + line, line.replace(" ", "\u00a0"), line.replace(" ", "", 1), line.replace('"', ""), line.replace('"', "'"), '"' + line + '"'):
                if v != line:
                    out.append((ls, i, v))
    c.record("every word of every line in other spellings: " + kind, "TraceLines",
             parses(kind, ["\n".join(ls[:i] + [v] + ls[i + 1:]) + "\n" for ls, i, v in out]))


@check("C07")
def c07(c):
    def h(kind):
        return lambda e: [([{"op": "parse", "kind": kind, "text": "\n".join(e["lines"]) + "\n"}], [e["out"]])]
    stray = set(dictionary.STRAY[:3]) | pick(c, "stray", ["x", "1", '"', "H", "N", "1.5", "", "F", "-", '""', "C", "CN"], ["x", "CN", "1"], c.n(5, 10))
    for kind in ("sch", "lib"):
        c.model("one damaged line or word: " + kind, "MC_LineDamage", h(kind),
                dict(consts(Texts={"a"}, Names={"R"}, Ints={"0"}, Floats={"0.5"}, Which=kind, Damages=1, Stray=stray, Codes=set(CODES)),
                     Swapped=line_words(c, "swapped " + kind, c.n(3, 8))), ["CutRefused", "Emit"], heap="12g")
        every_line_word(c, kind)
        r = c.rng("torn " + kind)
        base = line_texts(c, kind, 60, "torn " + kind, 2)
        for s in sample_texts(kind):
            base += [cut_lines(s, kind, r, 2) for _ in range(30)]
        c.record("damaged %s texts" % kind, "TraceLines", parses(kind, [torn(r.choice(base), r) for _ in range(c.n(2500, 20000))]))
        # lines that the format allows but this library never writes, and what follows when one of them is lost
        ts = []
        for t in r.sample([t for t in base if t.count("\n") > 8], c.n(20, 60)):
            ls = (t if r.random() < 0.7 else relined(t, kind, r)).split("\n")
            if kind == "lib" and "DRAW" in ls and r.random() < 0.7:
                i = before_draw(ls)
                ls[i:i] = ["$FPLIST", " R_*", " C_*", "$ENDFPLIST"]
            for i in r.sample(range(len(ls)), min(len(ls), 30)) + [i for i, x in enumerate(ls) if x.startswith("$")]:
                ts += [ls[:i] + ls[i + 1:], ls[:i], ls[:i] + [ls[i]] + ls[i:], ls[:i + 1] + [""] + ls[i + 1:], ls[:i - 1] + [ls[i], ls[i - 1]] + ls[i + 1:] if i else ls]
        c.record("a line lost, doubled or moved: " + kind, "TraceLines", parses(kind, ["\n".join(x) + "\n" for x in ts]))


SYMBOL = "EESchema-LIBRARY Version 2.3\n#encoding utf-8\n#\n# a\n#\nDEF a U 0 0 Y Y 1 F N\nALIAS %s\nDRAW\nENDDRAW\nENDDEF\n#\n#End Library\n"
SHEET = ("EESchema Schematic File Version 2\nEELAYER 25 0\nEELAYER END\n$Descr A4 1 2\nencoding utf-8\nSheet 1 1\nTitle %s\nDate \"\"\nRev \"\"\nComp \"\"\n"
         "Comment1 \"\"\nComment2 \"\"\nComment3 \"\"\nComment4 \"\"\n$EndDescr\n$EndSCHEMATC\n")


@check("C21")
def c21(c):
    def h(es):
        steps, want = [], []
        for e in es:
            steps.append({"op": "parse", "kind": "lib", "text": SYMBOL % e["s"]})
            want.append({"ok": [{"name": "a", "ref": "U", "off": "0", "pinnum": True, "pinname": True, "units": "1", "locked": False, "power": False,
                                 "fields": [], "aliases": e["aliases"], "draw": []}]})
            steps.append({"op": "parse", "kind": "sch", "text": SHEET % e["s"]})
            d = {"size": "A4", "dimx": "1", "dimy": "2", "date": "", "rev": "", "comp": "", "comment1": "", "comment2": "", "comment3": "",
                 "comment4": "", "sheet": "1", "sheet_count": "1"}
            want.append({"ok": {"libs": [], "eelayer": "EELAYER 25 0", "descr": dict(d, title=e["title"][0]), "el": [], "sheets": []}} if e["title"] else {"err": True})
        return [(steps, want)]
    c.model("all short line ends", "MC_Split", h, consts(MaxLen=c.n(6, 8), Alphabet=set('a "') | pick(c, "more", ["\t", "#", "é", "'", "\\", "\u00a0"], ["\t"], c.n(1, 2))),
            ["NoQuotes", "Protected", "Emit"], batch=200)
    g = c.lines("values")
    hs = []
    al = "".join(x for x in dictionary.FRESH["chars"] if x.isprintable() and x not in '"\\') + "ab1 .,;:#'~$%()[]{}<>=+-*/|&!?@^_éΩ日\t\u00a0\u3000\u2003\u200b"
    for i in range(c.n(1200, 9000)):
        v = lambda: "".join(g.r.choice(al) for _ in range(g.r.choice([0, 1, 3, 8, 40])))
        if i % 2:
            d = g.schematic(0)
            cp = g.comp()
            cp["fields"] = [dict(g.field(), i=str(4 + j), name=v(), value=v()) for j in range(2)] + [dict(g.field(0), value=v())]
            d["el"] = [cp]
            d["descr"].update(title=v(), comment3=v(), comp=v())
            d["sheets"] = [dict(g.sheet(), name=v(), filename=v())]
            for lb in d["sheets"][0]["labels"]:
                lb["name"] = v()
            kind = "sch"
        else:
            y = g.symbol()
            y["fields"] = [dict(g.symfield(), i=str(4 + j), name=v(), value=v()) for j in range(2)] + [dict(g.symfield(1), value=v())]
            kind, d = "lib", [y]
        hs.append([{"op": "new", "kind": kind, "doc": d}, {"op": "reparse", "indent": 0}])
    c.record("values of any characters", "TraceLines", hs)
    r = c.rng("mixed")
    hs = []
    for _ in range(c.n(800, 6000)):
        p = "".join(r.choice(dictionary.WORDS + ["a", "b c", '"', '"', " ", "  ", '"x y"', '""', "1", "\t", "é", "'", "#", '" "', "\u00a0", "\u3000", "\\", "\u2003"]) for _ in range(r.randint(0, 8)))
        hs.append([{"op": "parse", "kind": "lib", "text": SYMBOL % p}])
        hs.append([{"op": "parse", "kind": "sch", "text": SHEET % p}])
        # words before the one that says what the line is
        hs.append([{"op": "parse", "kind": "sch", "text": SHEET.replace("Title %s", r.choice(["", '""', " ", '"" ', p]) + "Title" + r.choice(["", '""', " "]) + p)}])
        hs.append([{"op": "parse", "kind": "lib", "text": SYMBOL.replace("ALIAS %s", r.choice(["", '""', " ", '"" ', p]) + "ALIAS" + r.choice(["", '""', " "]) + p)}])
    c.record("lines of mixed words", "TraceLines", hs)


@check("C22")
def c22(c):
    def h(es):
        return [([{"op": "sort", "v": e["list"]} if "list" in e else {"op": "reford", "v": e["ref"]} for e in es], [e["out"] for e in es])]
    pool = pick(c, "pool", ["U1", "U2", "U10", "R1", "U", "R12", "r1", "U2,R1", "U02", "TP1", "R,5", "#PWR3", "1U", "U10A", "", ",U3", "é1", "µ2"], ["U2", "U10", "R12", "U1,U0"], c.n(6, 9))
    c.model("all short references and lists", "MC_Refs", h, consts(MaxLen=c.n(5, 6), Alphabet=set("UR09,1") if c.tier == "quick" else set("Ur09,1#"), Pool=pool, MaxList=c.n(4, 5)),
            ["InOrder", "SameItems", "Emit"], batch=300)
    # the characters whose order the specification knows
    ranked = lambda w: all(" " <= x <= "~" or x in "µéΩ" for x in w)
    fresh = [w for w in dictionary.WORDS if ranked(w)]
    r = c.rng("refs")
    hs = []
    for _ in range(c.n(600, 5000)):
        def ref():
            k = r.random()
            if k < 0.6:
                return r.choice(["U", "R", "C", "TP", "IC", "#PWR", "J", "u"]) + str(r.choice([r.randint(0, 12), r.randint(0, 2000), 10 ** r.randint(0, 21), 2 ** 63 - r.randint(0, 2)])) + r.choice(["", "", "A", "_1"])
            if k < 0.75 and fresh:
                return r.choice(["", "U", "1"]) + r.choice(fresh) + r.choice(["", "1", ",U1"])
            return "".join(r.choice("URCabz019,,. _-#*~'\"[éΩµ;:/+") for _ in range(r.randint(0, 8)))
        v = [ref() for _ in range(r.randint(1, 9))]
        hs.append([{"op": "sort", "v": v + ["%s,%s" % (r.choice(v), r.choice(v))]}] + [{"op": "reford", "v": x} for x in v])
    c.record("random references", "TraceLines", hs)
    hs = []
    for w in sorted(set(w for w in ODD_TEXTS + ODD_NAMES + ODD_INTS if ranked(w)) | set(chr(i) for i in range(33, 127))):
        for v in (w, "U" + w, w + "1", "U" + w + "1", "U1" + w, "U1" + w + "2", w + ",U1", "U1," + w, "1" + w):
            hs.append([{"op": "reford", "v": v}])
        hs.append([{"op": "sort", "v": ["U2", "U" + w, w + "3", "U10", w, "U1" + w, "U1", "U10" + w, w + "20"]}])
    c.record("every odd text and number in a reference", "TraceLines", hs)


# --------------------------------------------------------------------------- edits of components
def comp_edits(g, names):
    r = g.r
    k = r.random()
    v = r.choice(["x", "y", "", "R7", g.value(), gen.near(r, r.choice(["x", "R7", "two words"]))])
    if r.random() < 0.15:
        names = [gen.near(r, r.choice(names))]
    elif dictionary.WORDS and r.random() < 0.15:
        names = dictionary.WORDS
    if k < 0.15:
        return {"op": "update_reference", "v": v}
    if k < 0.3:
        return {"op": "update_name", "v": v}
    if k < 0.6:
        return {"op": "update_field", "name": r.choice(names), "v": v}
    t = g.field()
    if k < 0.92:
        return {"op": "add_or_update_field", "name": r.choice(names), "v": v, "template": t}
    return {"op": "add_new_field", "name": r.choice(names), "v": v, "template": t}


STYLES = {"o": "HV", "h": "LRCBT", "v": "LRCBT"}


def field_variants(f, size):
    for v in ODD_TEXTS:
        yield dict(f, value=v)
        if int(f["i"]) > 3:
            yield dict(f, name=v)
    for k in ("x", "y"):
        for v in ODD_FLOATS + ODD_INTS:
            yield dict(f, **{k: v})
    for v in ODD_INTS:
        yield dict(f, **{size: v})
    for k, w in STYLES.items():
        for v in w:
            yield dict(f, **{k: v})
    for k in ("visible", "italic", "bold"):
        yield dict(f, **{k: not f[k]})


def listed(fs):
    """a list with its end missing, turned round, doubled or empty"""
    return [[], fs[:1], fs[:2], fs[1:], fs[::-1], fs + fs, fs[2:] + fs[:2]]


def comp_variants(cp):
    """the component with one of its parts another at a time"""
    yield cp
    for k in ("name", "ref"):
        for v in ODD_NAMES:
            yield dict(cp, **{k: v})
    for v in ["", "U 1 1 5A", "U 2 1 0", "U 0 0 0", "U"]:
        yield dict(cp, u=v)
    for k in ("x", "y"):
        for v in ODD_INTS:
            yield dict(cp, **{k: v})
    for i in range(4):
        for v in ODD_INTS[:8]:
            yield dict(cp, rot=cp["rot"][:i] + [v] + cp["rot"][i + 1:])
    for v in [[], ["AR x"], ["AR x", "AR y"]]:
        yield dict(cp, ar=v)
    for fs in listed(cp["fields"]):
        yield dict(cp, fields=fs)
    for i, f in enumerate(cp["fields"]):
        for x in field_variants(f, "size"):
            yield dict(cp, fields=cp["fields"][:i] + [x] + cp["fields"][i + 1:])
        for n in ("0", "1", "2", "3", "4", "5", "9", "10", "98", "99", "100", "1000", "1000000"):
            yield dict(cp, fields=cp["fields"][:i] + [dict(f, i=n)] + cp["fields"][i + 1:])


def comp_survey(g):
    """every part of a component another and then edited, and every edit with every text"""
    cp = dict(g.comp(), fields=[dict(g.field(i), value="v%d" % i) for i in range(4)] + [dict(g.field(4), name="MPN", value="m"), dict(g.field(7), name="Vendor", value="w")])
    t = g.field(5)
    new = lambda d: {"op": "new", "kind": "comp", "doc": d}
    edits = [{"op": "update_reference", "v": "Q7"}, {"op": "update_name", "v": "N"}, {"op": "update_field", "name": "Vendor", "v": "z"},
             {"op": "add_or_update_field", "name": "MPN", "v": "y", "template": t}, {"op": "add_or_update_field", "name": "New", "v": "n", "template": t},
             {"op": "add_new_field", "name": "More", "v": "k", "template": t}]
    for i, x in enumerate(comp_variants(cp)):
        steps = [new(x)]
        for j in range(len(edits)):
            steps.append(edits[(i + j) % len(edits)])
            if j % 2:
                steps.append({"op": "look", "name": ["MPN", "Value", "New"][j // 2]})
        yield steps + [{"op": "get"}]
    for f in field_variants(t, "size"):
        yield [new(cp), {"op": "add_new_field", "name": "More", "v": "k", "template": f}, {"op": "add_or_update_field", "name": "New", "v": "n", "template": f}, {"op": "get"}]
    for v in sorted(set(ODD_TEXTS + ODD_NAMES)):
        for e in edits:
            yield [new(cp), dict(e, v=v), {"op": "get"}, dict(e, v="x"), {"op": "get"}]
            if "name" in e:
                yield [new(cp), dict(e, name=v), {"op": "look", "name": v}, {"op": "get"}]
        for n in ("Reference", "Value", "Footprint", "UserDocLink"):
            yield [new(cp), {"op": "update_field", "name": n, "v": v}, {"op": "get"}, {"op": "add_or_update_field", "name": n, "v": v + "1", "template": t}, {"op": "get"}]


@check("C14")
def c14(c):
    def h(e):
        steps, want = [{"op": "new", "kind": "comp", "doc": e["start"]}], ["ok"]
        for s in e["steps"]:
            steps.append(s["e"])
            want.append(s["out"])
        for n, l in e["look"].items():
            l["hash"] = sorted(l["hash"])
            steps.append({"op": "look", "name": n})
            want.append(l)
        return [(steps, want)]
    names = pick(c, "names", ["Value", "MPN", "Vendor", "Reference", "Footprint", "New", ""], ["MPN", "New"], c.n(3, 4))
    vals = pick(c, "values", ["x", "", "two words", "é", "R"], ["x"], 2)
    inv = ["DistinctNumbers", "DistinctNames", "KeepsFormat", "NewHidden", "LastGiven", "Emit"]
    base = dict(Texts={"a"}, Names={"R"}, Ints={"0"}, Floats={"0.5"}, FieldNames=names, Values=vals)
    c.model("all short edit histories", "MC_CompEdit", h, consts(MaxEdits=c.n(2, 3), WithNew=True, **base), inv, thin=c.n(None, 20000))
    c.model("all short histories of adding and updating", "MC_CompEdit", h, consts(MaxEdits=3, WithNew=False, **base), inv, thin=c.n(2500, 20000))
    g = c.lines("edits")
    hs = []
    for _ in range(c.n(900, 8000)):
        cp = g.comp()
        names = list({f["name"] for f in cp["fields"]} | {"MPN", "New", "", "Value"})
        steps = [{"op": "new", "kind": "comp", "doc": cp}]
        for _ in range(g.r.randint(1, 12)):
            e = comp_edits(g, names)
            held = [f["value"] for f in cp["fields"] if f["name"] == e.get("name")]
            if held and g.b(0.3):
                e["v"] = g.r.choice([held[0], gen.near(g.r, held[0])])
            steps.append(e)
            if g.r.random() < 0.3:
                steps.append({"op": "look", "name": g.r.choice(names)})
        steps += [{"op": "get"}, {"op": "look", "name": g.r.choice(names)}]
        hs.append(steps)
    for n in [300] + g.r.sample([17, 33, 65, 129], c.n(2, 4)) + dictionary.LENGTHS[:12]:
        cp = dict(g.comp(), fields=[g.field(i) for i in range(n)])
        last = cp["fields"][-1]["name"]
        hs.append([{"op": "new", "kind": "comp", "doc": cp}, {"op": "update_field", "name": last, "v": "z"}, {"op": "look", "name": last},
                   {"op": "add_or_update_field", "name": "New", "v": "n", "template": g.field()}, {"op": "add_new_field", "name": "More", "v": "n", "template": g.field()},
                   {"op": "get"}])
    c.record("random edit histories", "TraceLines", hs)
    c.record("every part of a component another, and every edit with odd texts", "TraceLines", list(comp_survey(g)))
    hs = []
    for _ in range(c.n(500, 4000)):
        d = g.schematic(7)
        cs = [e for e in d["el"] if e["k"] == "comp"]
        names = list({f["name"] for e in cs for f in e["fields"]} | {"MPN", "New"})
        if cs and g.r.random() < 0.5:
            d["el"].append(dict(g.comp(), ref=cs[0]["ref"]))
        steps = [{"op": "new", "kind": "sch", "doc": d}]

        def asked():
            x = g.r.choice([x["ref"] for x in cs] or ["R1"])
            return x if g.r.random() < 0.75 else gen.near(g.r, x)
        if cs and g.r.random() < 0.3:
            cs[-1]["ref"] = gen.near(g.r, cs[0]["ref"])
        for _ in range(g.r.randint(1, 4)):
            e = comp_edits(g, names)
            k = g.r.random()
            if k < 0.6:
                steps.append({"op": "modify_component", "ref": asked(), "edit": e})
            elif k < 0.9:
                steps.append({"op": "modify_components", "edit": e})
            else:
                steps.append({"op": "increment_sheet_count"})
        steps += [{"op": "components"}, {"op": "get"}]
        hs.append(steps)
    for n in [300] + g.r.sample([17, 33, 65, 129], c.n(1, 3)) + dictionary.LENGTHS[:12]:
        d = gen.stretch(g, lambda: g.schematic(5), "el", n)
        hs.append([{"op": "new", "kind": "sch", "doc": d}, {"op": "modify_components", "edit": {"op": "update_field", "name": "Value", "v": "z"}},
                   {"op": "components"}, {"op": "get"}])
    c.record("random histories of editing within a schematic", "TraceLines", hs)


# --------------------------------------------------------------------------- symbols
def symbol_for_check(g):
    r = g.r
    y = g.symbol()
    y["name"] = r.choice(["", "~"]) + "".join(r.choice("abcXYZ019_-." if r.random() < 0.9 else "/+ ()é~#'*:") for _ in range(r.randint(1, 9)))
    y["ref"] = r.choice(["U", "#PWR", "#PWR", "#FLG", "#", "R", "PWR", "#PWR01"])
    if r.random() < 0.5:
        y["fields"] = [g.symfield(i) for i in range(4)]
    for f in y["fields"]:
        if r.random() < 0.8:
            f["dim"] = "50"
        f["visible"] = (f["i"] in "01") != (r.random() < 0.3)
    k = r.choice([0, 1, 1, 2, 3])
    y["draw"] = [d for d in y["draw"] if d["k"] != "pin"]
    for _ in range(k):
        p = g.draw()
        while p["k"] != "pin":
            p = g.draw()
        p["x"] = r.choice(["0", "100", "-100", "300", "50", "10", "-150", "1"])
        p["y"] = r.choice(["0", "100", "-100", "300", "50", "10", "-150", "1"])
        p["len"] = r.choice(["100", "150", "300", "0", "50", "99", "301", "350", "200", "125"])
        p["name"] = r.choice(["NC", "nc1", "SYNC", "A", "N.C", "CN", "Nc", "~RST", "N", "xnC"])
        p["t"] = r.choice(["N", "N", "I", "P", "W"])
        for s in ("num_size", "name_size"):
            p[s] = r.choice(["50", "50", "50", "40", "60", "0"])
        y["draw"].insert(r.randint(0, len(y["draw"])), p)
    return y


@check("C18")
def c18(c):
    def h(es):
        steps, want = [{"op": "new", "kind": "lib", "doc": [e["doc"] for e in es]}], ["ok"]
        for i, e in enumerate(es):
            steps += [{"op": "check", "i": i}, {"op": "symlook", "i": i}]
            want += [e["out"], e["look"]]
        return [(steps, want)]
    co = pick(c, "coords", ["0", "50", "-100", "100", "10", "-150", "101", "1000", "-10"], ["50", "-100", "10"], c.n(5, 7))
    ln = pick(c, "lengths", ["100", "0", "50", "99", "125", "300", "301", "350", "250", "105"], ["50", "300", "350", "105"], c.n(6, 8))
    c.model("symbols within %d changes of a good one" % c.n(2, 2), "MC_SymCheck", h,
            consts(Texts={"a"}, Names={"R"}, Ints={"0"}, Floats={"0.5"}, Spoilt=False, Changes=2, Coords=co, Lengths=ln, Sizes=pick(c, "sizes", ["50", "40", "60", "0"], ["50"], c.n(2, 3)),
                   SymNames=pick(c, "symnames", ["~AB", "a/b", "A b", "x.y-z_0", "é", "+5V", "~~", "R", "(a:b)"], ["~AB", "a/b"], c.n(4, 7)),
                   PinNames=pick(c, "pinnames", ["NC", "nc", "SYNC", "N", "A", "N C"], ["NC", "SYNC"], c.n(3, 5)),
                   Refs=pick(c, "refs", ["U", "#PWR", "#FLG", "#", "#PWR1", "PWR"], ["#PWR", "#PWR1"], c.n(3, 5))),
            ["StartsQuiet", "DrawnFree", "OtherwiseFree", "Exclusive", "Emit"], batch=20, thin=c.n(6000, 60000))
    ints = {x for x in ODD_INTS if abs(int(x)) < 2 ** 31}
    every = dict(Coords=ints | {"50", "-50", "100", "10", "-10", "99", "150", "-150"}, Lengths=ints | {"0", "49", "50", "99", "100", "101", "105", "150", "250", "299", "300", "301", "350", "-100", "-30", "-350", "10000"},
                 Sizes={"0", "1", "49", "50", "51", "10", "9", "11", "100", "500", "-50", "40", "60", "1000000"},
                 SymNames={"A", "R", "L", "C", "D", "~R", "~A", "~", "~~", "a/b", "A b", "é", "a+b", "(a:b)", "x.y-z_0", "a.", "_", "0", "a~b", "#A", "a*", "a\tb", "", "R1", "A" * 60, "A" * 60 + "/", "Ω", "a,b", "a%b", "~a/b"},
                 PinNames={"NC", "nc", "SYNC", "N", "A", "N C", "N.C", "NC1", "~NC", "Nc", "CN", "ANCHOR", "", "~", "NCNC", "N" * 40 + "C"},
                 Refs={"U", "R", "#PWR", "#FLG", "#", "#PWR1", "PWR", "#pwr", "#FLG1", "FLG", "#LOGO", "", "U#PWR", "# PWR"})
    for spoilt in (False, True):
        c.model("every single change of %s symbols" % ("spoilt" if spoilt else "good"), "MC_SymCheck", h,
                consts(Texts={"a"}, Names={"R"}, Ints={"0"}, Floats={"0.5"}, Spoilt=spoilt, Changes=1, **every),
                ["StartsQuiet", "DrawnFree", "OtherwiseFree", "Exclusive", "Emit"], batch=20)
    g = c.lines("symbols")
    hs = []
    for _ in range(c.n(400, 3500)):
        d = [symbol_for_check(g) for _ in range(g.r.randint(1, 4))]
        steps = [{"op": "new", "kind": "lib", "doc": d}]
        for i in range(len(d)):
            steps += [{"op": "check", "i": i}, {"op": "symlook", "i": i}]
        for _ in range(g.r.randint(0, 3)):
            i = g.r.randrange(len(d))
            steps += [{"op": "set_name", "i": i, "v": g.r.choice(["B", "a b", "~q", "x/y"])}, {"op": "find", "name": g.r.choice([d[i]["name"], "B", "~B", "none"])},
                      {"op": "check", "i": i}]
        hs.append(steps)
    c.record("random symbols", "TraceLines", hs)


def symbol_variants(y):
    """the symbol with one of its parts another at a time"""
    yield y
    for k in ("name", "ref"):
        for v in ODD_NAMES:
            yield dict(y, **{k: v})
    for v in ODD_INTS:
        yield dict(y, units=v)
    for v in ODD_INTS + ODD_FLOATS:
        yield dict(y, off=v)
    for k in ("pinnum", "pinname", "locked", "power"):
        yield dict(y, **{k: not y[k]})
    for v in [[]] + [[n] for n in ODD_NAMES] + [["a", "b"], ["b", "a"], ["a", "a"], [y["name"]], [y["name"], "a"]]:
        yield dict(y, aliases=v)
    for fs in listed(y["fields"]):
        yield dict(y, fields=fs)
    for i, f in enumerate(y["fields"]):
        for x in field_variants(f, "dim"):
            yield dict(y, fields=y["fields"][:i] + [x] + y["fields"][i + 1:])
        for n in ("0", "1", "2", "3", "4", "9", "100"):
            yield dict(y, fields=y["fields"][:i] + [dict(f, i=n)] + y["fields"][i + 1:])
    for ds in listed(y["draw"]):
        yield dict(y, draw=ds)
    for i, p in enumerate(y["draw"]):
        alt = {"pin": {"name": ODD_NAMES, "number": ODD_NAMES, "len": ODD_INTS, "x": ODD_INTS, "y": ODD_INTS, "o": "UDLR", "num_size": ODD_INTS, "name_size": ODD_INTS,
                       "unit": ODD_INTS, "convert": ODD_INTS, "t": "IOBTPUWwCEN", "visible": [True, False], "shape": ["", "I", "C", "CI", "L", "CL", "V", "F", "X"]},
               "rect": {"x1": ODD_INTS, "y1": ODD_INTS, "x2": ODD_INTS, "y2": ODD_INTS, "unit": ODD_INTS, "convert": ODD_INTS, "thickness": ODD_INTS, "fill": "FfN"},
               "other": {}}[p["k"]]
        for k, vs in alt.items():
            for v in vs:
                yield dict(y, draw=y["draw"][:i] + [dict(p, **{k: v})] + y["draw"][i + 1:])


def symbol_survey(g):
    """every part of a symbol another and then looked at and renamed; every name asked for and given"""
    pin = next(d for d in iter(g.draw, None) if d["k"] == "pin")
    rect = next(d for d in iter(g.draw, None) if d["k"] == "rect")
    y = dict(g.symbol(), name="Q", ref="U", draw=[pin, rect, dict(pin, number="2")], aliases=["al"],
             fields=[dict(g.symfield(i), value="v%d" % i) for i in range(4)] + [dict(g.symfield(4), name="MPN", value="m")])
    for i, x in enumerate(symbol_variants(y)):
        other = dict(y, name="Other")
        yield [{"op": "new", "kind": "lib", "doc": [other, x]}, {"op": "find", "name": x["name"]}, {"op": "symlook", "i": 1},
               {"op": "set_name", "i": 1, "v": "N%d" % (i % 3)}, {"op": "symlook", "i": 1}, {"op": "find", "name": "N%d" % (i % 3)}, {"op": "get"}]
    for v in sorted(set(ODD_NAMES + ODD_TEXTS)):
        yield [{"op": "new", "kind": "lib", "doc": [y, dict(y, name="~R")]}, {"op": "set_name", "i": 0, "v": v}, {"op": "set_name", "i": 1, "v": v},
               {"op": "find", "name": v}, {"op": "find", "name": "Q"}, {"op": "symlook", "i": 0}, {"op": "symlook", "i": 1}, {"op": "get"},
               {"op": "set_name", "i": 0, "v": "z"}, {"op": "get"}]
    for ref in ("#", "#PWR", "#FLG", "#P", "PWR", "U", "#PWR01", "#pwr"):
        for power in (False, True):
            for n in ("Q", "~Q", "R", "L", "~", "C"):
                for ds in ([], [pin], [rect], [dict(pin, len="0")], [dict(pin, t="W")], [dict(pin, t="W", visible=False)], [rect, pin, pin]):
                    yield [{"op": "new", "kind": "lib", "doc": [dict(y, ref=ref, power=power, name=n, draw=ds)]}, {"op": "symlook", "i": 0},
                           {"op": "set_name", "i": 0, "v": "T"}, {"op": "symlook", "i": 0}, {"op": "get"}]


@check("C24")
def c24(c):
    def h(e):
        steps, want = [{"op": "new", "kind": "lib", "doc": e["start"]}], ["ok"]
        for s in e["steps"]:
            steps.append({"op": "set_name", "i": s["i"], "v": s["v"]})
            want.append(s["out"])
        for i, l in enumerate(e["looks"]):
            steps.append({"op": "symlook", "i": i})
            want.append(l)
        for n, f in sorted(e["found"].items()):
            steps.append({"op": "find", "name": n})
            want.append(f)
        return [(steps, want)]
    c.model("all short renaming histories", "MC_SymEdit", h,
            consts(Texts={"a"}, Names={"R"}, Ints={"0"}, Floats={"0.5"}, MaxEdits=c.n(2, 3), SymNames=pick(c, "names", ["A", "~A", "R", "L", "D", "C", "~", "Rx"], ["~A", "R"], c.n(3, 4)),
                   Given=pick(c, "given", ["A", "B", "~B", "C", "two words"], ["B", "C"], 2), Refs=pick(c, "refs", ["U", "#PWR", "#FLG", "#PWR1", "PWR"], ["#PWR", "#FLG"], c.n(3, 5)),
                   FieldCounts={0, 1, 2, 3} if c.tier != "quick" else {1, 3}),
            ["KeepsTilde", "RestKept", "LastName", "OtherFields", "Emit"], thin=c.n(2500, 20000))
    g = c.lines("libraries")
    hs = []
    for _ in range(c.n(700, 6000)):
        d = [symbol_for_check(g) for _ in range(g.r.randint(1, 5))]
        if g.r.random() < 0.5:
            d[-1]["name"] = d[0]["name"]
        for y in d:
            if g.r.random() < 0.2:
                y["name"] = g.r.choice(["L", "R", "C", "D", "~L", "l", "RR", ""])
        names = [y["name"] for y in d]
        steps = [{"op": "new", "kind": "lib", "doc": d}]
        for _ in range(g.r.randint(1, 6)):
            i = g.r.randrange(len(d))
            k = g.r.random()
            if k < 0.4:
                v = g.r.choice(names + ["B", "a b", "~q", "x/y", "L", gen.near(g.r, g.r.choice(names))])
                names.append(v)
                steps.append({"op": "set_name", "i": i, "v": v})
            elif k < 0.7:
                steps.append({"op": "find", "name": g.r.choice(names + ["none", gen.near(g.r, g.r.choice(names))])})
            else:
                steps.append({"op": "symlook", "i": i})
        steps.append({"op": "get"})
        hs.append(steps)
    for n in [300] + g.r.sample([17, 33, 65, 129], c.n(1, 3)) + dictionary.LENGTHS[:12]:
        d = [dict(symbol_for_check(g), name="S%d" % i, draw=[]) for i in range(n)]
        hs.append([{"op": "new", "kind": "lib", "doc": d}, {"op": "find", "name": "S%d" % (n - 1)}, {"op": "set_name", "i": n - 1, "v": "x"}, {"op": "get"}])
    c.record("random renaming histories", "TraceLines", hs)
    c.record("every part of a symbol another, and odd names", "TraceLines", list(symbol_survey(g)))
