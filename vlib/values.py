"""Comparing, building and naming values."""
import copy

from . import text as T
from . import dictionary
from .checks import check, consts, pick, ODD_NUMBERS, ODD_TEXTS, TEXTS, NUMBERS
from .gen import INTEGERS, near, parted
from .edits import UNITS


def mixed(a, b, r, p):
    """a with parts of b"""
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: (mixed(a[k], b[k], r, p) if k in b else copy.deepcopy(a[k])) for k in a}
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and r.random() > p:
        return [mixed(x, y, r, p) for x, y in zip(a, b)]
    return copy.deepcopy(b if r.random() < p else a)


def changed(a, another, r):
    """a, with none, one or some of its parts taken from others of its kind"""
    k = r.random()
    if k < 0.15:
        return copy.deepcopy(a)
    if k < 0.7:
        f = r.choice(sorted(a))
        for _ in range(4):
            b = another()
            if f in b and b[f] != a[f] and f != "k":
                return dict(copy.deepcopy(a), **{f: b[f] if not isinstance(b[f], dict) or r.random() < 0.3 else mixed(a[f], b[f], r, 0.4)})
        return copy.deepcopy(a)
    if k < 0.85:
        return tweaked(a, r)
    return dict(mixed(a, another(), r, r.choice([0.05, 0.2, 0.5])), k=a["k"])


def tweaked(a, r):
    """a, with one number or text changed a little"""
    b = copy.deepcopy(a)
    spots = []

    def walk(v):
        for k, x in (v.items() if isinstance(v, dict) else enumerate(v)):
            if isinstance(x, (dict, list)):
                walk(x)
            elif k not in ("k", "t", "s", "justify", "shape", "tstamp", "tedit") and not isinstance(x, bool) and (isinstance(x, int) or not x.lstrip("-").isdigit()) and k != "v":
                spots.append((v, k))
    walk(b)
    if spots:
        v, k = r.choice(spots)
        v[k] = v[k] + r.choice([1, -1, 2, 640]) if isinstance(v[k], int) else near(r, v[k])
    return b


def same(kind, a, b):
    return {"op": "same", "kind": kind, "a": a, "b": b}


@check("C26")
def c26(c):
    def h(es):
        return [([same(e["kind"], e["a"], e["b"]) for e in es], [e["out"] for e in es])]
    c.model("items within two changes of a plain one, and every pair of kinds", "MC_Compare", h,
            consts(Words=pick(c, "words", TEXTS, ["a", "", "two words"], c.n(4, 6)), Nums=pick(c, "nums", NUMBERS, ["0", "1"], c.n(3, 4)),
                   MaxChanges=2, Cross=True),
            ["Reflexive", "Symmetric", "Transitive", "EqualIsSame", "Emit"], batch=20, heap="8g")
    hs = []
    g = c.units("items")
    r = g.r
    for _ in range(c.n(2500, 20000)):
        a = g.fpitem()
        k = r.random()
        if k < 0.1:
            hs.append([UNITS, same("fpel", a, g.fpitem())])
        elif k < 0.2:
            a = g.netclass()
            hs.append([UNITS, same("class", a, changed(a, g.netclass, r))])
        else:
            hs.append([UNITS, same("fpel", a, changed(a, lambda: g.fpitem(a["k"]), r))])
    c.record("random items and net classes against changed ones", "TraceEdit", hs)
    hs = []
    g.nets, g.refs = ["a", "b"], ["U1"]
    groups = {}
    for w, p, x in list(parted(g, "fpel")) + [q for q in parted(g, "layel") if q[0]["k"] == "net_class"]:
        groups.setdefault((w["k"], p), [w]).append(x)
    for (k, _), xs in groups.items():
        kind = "class" if k == "net_class" else "fpel"
        for i, x in enumerate(xs):
            others = xs[i + 1:] if len(xs) < 20 else xs[i + 1:i + 3] + r.sample(xs, 2)
            hs.append([UNITS, same(kind, x, x)] + [s for y in others for s in (same(kind, x, y), same(kind, y, x))] + [same(kind, xs[0], x)])
    c.record("every item against the same with one part another", "TraceEdit", hs)


LAYER_WORDS = ["F.Cu", "B.SilkS", "Margin", "x.y", "Top", "a.b.c", "*.Mask", "Edge.Cuts", "F.", ".Cu", "Cu", "f.Cu", "In1.Cu", "In3.Cu", "Dwgs.User", "F.cu", "", ".", " F.Cu", "F.Cu ", "F..Cu", "F .Cu", "F. Cu",
               "F.SILKS", "F.Silk", "F.CrtYd", "F.Courtyard", "Both.Cu", "&.Cu", "In2.Cu", "In10.Cu", "Eco1.User", "F.Cu.", "-.Cu", "F_Cu", "F&B.Cu"]


def build_step(g, r, last):
    """one step; the later ones fit the item made last"""
    k = r.random()
    if last is None or k < 0.35:
        x = r.random()
        if x < 0.4:
            return "fp_text", {"op": "make_text", "name": r.choice(["reference", "value", "user", g.word()]), "value": g.word()}
        if x < 0.8:
            t, sh = r.choice(["smd", "thru_hole", "np_thru_hole"]), r.choice(["rect", "circle", "oval", "trapezoid"])
            if r.random() < 0.15:
                t = r.choice(["SMD", "connect", "", "smd ", g.word(), near(r, t), near(r, t)] + T.KEYWORDS.get(t, []))
            if r.random() < 0.15:
                sh = r.choice(["Rect", "round", "", "roundrect", g.word(), near(r, sh), near(r, sh)] + T.KEYWORDS.get(sh, []))
            # a word of the format stands for itself only
            ok = t in ("smd", "thru_hole", "np_thru_hole") and sh in ("rect", "circle", "oval", "trapezoid")
            return "pad" if ok else last, {"op": "make_pad", "name": r.choice(["1", "A1", "", g.word()]), "t": t, "shape": sh}
        d = r.choice(["fp_line", "fp_circle", "fp_arc", "fp_poly"])
        return d, {"op": "make_drawing", "k": d}
    word = r.choice(LAYER_WORDS) if r.random() < 0.8 else g.word()
    if last == "pad":
        x = r.choice(["set_at", "set_size", "add_layer", "add_layer", "set_net", "set_drill"])
    elif last == "fp_text":
        x = r.choice(["set_at", "set_effects", "set_layer"])
    else:
        x = "set_layer"
    return last, {"set_at": lambda: {"op": x, "at": g.at()}, "set_size": lambda: {"op": x, "x": g.num(), "y": g.num()},
                  "add_layer": lambda: {"op": x, "word": word}, "set_layer": lambda: {"op": x, "word": word},
                  "set_net": lambda: {"op": x, "num": g.integer(), "name": g.word()}, "set_drill": lambda: {"op": x, "drill": g.drill() if r.random() < 0.8 else dict(g.drill(), **{k: "0" for k in r.sample(["width", "height", "ox"], 2)})},
                  "set_effects": lambda: {"op": x, "effects": g.effects()}}[x]()


def build_survey(g):
    """every step with every odd word and number, alone and after another"""
    texts = [{"op": "make_text", "name": "reference", "value": "a"}, {"op": "make_text", "name": "user", "value": ""}]
    pads = [{"op": "make_pad", "name": "1", "t": t, "shape": s} for t in ("smd", "thru_hole", "np_thru_hole") for s in ("rect", "circle", "oval", "trapezoid")]
    draws = [{"op": "make_drawing", "k": k} for k in ("fp_line", "fp_circle", "fp_arc", "fp_poly")]
    words = LAYER_WORDS + [w for w in ODD_TEXTS if w not in LAYER_WORDS]
    for i, w in enumerate(words):
        for m in texts + draws:
            yield [m, {"op": "set_layer", "word": w}]
            yield [m, {"op": "set_layer", "word": w}, {"op": "set_layer", "word": words[(i * 7 + 3) % len(words)]}]
        for b in ("*.Cu", "F.Cu", "*.Mask", "F.Paste", w):
            yield [pads[i % len(pads)], {"op": "add_layer", "word": b}, {"op": "add_layer", "word": w}, {"op": "add_layer", "word": b}]
        yield [{"op": "make_pad", "name": w, "t": "smd", "shape": "rect"}]
        yield [{"op": "make_text", "name": w, "value": "a"}]
        yield [{"op": "make_text", "name": "value", "value": w}]
        yield [{"op": "make_pad", "name": "1", "t": w, "shape": "rect"}]
        yield [{"op": "make_pad", "name": "1", "t": "smd", "shape": w}]
        yield [pads[i % len(pads)], {"op": "set_net", "num": "1", "name": w}]
    for t in ("smd", "thru_hole", "np_thru_hole", "connect"):
        for x in T.spellings(t):
            yield [{"op": "make_pad", "name": "1", "t": x, "shape": "rect"}]
    for s in ("rect", "circle", "oval", "trapezoid", "roundrect", "custom"):
        for x in [s] + T.spellings(s):
            yield [{"op": "make_pad", "name": "1", "t": "smd", "shape": x}]
    for p in pads:
        for n in INTEGERS:
            yield [p, {"op": "set_net", "num": n, "name": "GND"}]
        for n in ODD_NUMBERS:
            yield [p, {"op": "set_size", "x": n, "y": "1"}, {"op": "set_at", "at": {"x": n, "y": "0", "rot": "0"}}]
            yield [p, {"op": "set_size", "x": "1", "y": n}, {"op": "set_at", "at": {"x": "0", "y": n, "rot": n}}]
            yield [p, {"op": "set_size", "x": n, "y": n}]
            for k in ("width", "height", "ox", "oy"):
                for shape in ([], ["oval"]):
                    yield [p, {"op": "set_drill", "drill": dict({"shape": shape, "width": "1", "height": "1", "ox": "0", "oy": "0"}, **{k: n})}]
    for m in texts:
        for n in ODD_NUMBERS:
            for at in ({"x": n, "y": "0", "rot": "0"}, {"x": "0", "y": n, "rot": "0"}, {"x": "0", "y": "0", "rot": n}):
                yield [m, {"op": "set_at", "at": at}]
        for _ in range(40):
            yield [m, {"op": "set_effects", "effects": g.effects()}]
    for a in texts + pads[:4] + draws:
        for b in texts + pads[:4] + draws:
            yield [a, b, a]


@check("C27")
def c27(c):
    def h(e):
        steps = [{"op": "begin", "kind": "fp", "name": "m"}] + [x["step"] for x in e["log"]]
        want = [{"name": "m", "el": []}] + [None if x["ok"] else {"err": True} for x in e["log"]]
        return [(steps + [{"op": "get"}, {"op": "reparse", "indent": 0}], want + [e["doc"], {"ok": e["doc"]}])]
    c.model("footprints built in up to %d steps" % c.n(3, 4), "MC_Build", h,
            consts(Words=pick(c, "words", TEXTS, ["a"], c.n(2, 2)), Nums={"0", "1"},
                   LayerWords=pick(c, "layers", LAYER_WORDS, ["F.Cu", "x.y", "Top"], c.n(5, 6)), MaxSteps=c.n(3, 4)),
            ["ReadsBack", "OnePerMake", "Emit"], thin=c.n(12000, 60000), heap="8g")
    g = c.gen("built")
    r = g.r
    hs = []
    for _ in range(c.n(900, 8000)):
        hs.append([{"op": "begin", "kind": "fp", "name": g.word()}])
        last = None
        for _ in range(r.randint(1, 9)):
            last, s = build_step(g, r, last)
            hs[-1].append(s)
        hs[-1] += [{"op": "ser", "indent": r.choice([0, 0, 1, 2])}, {"op": "reparse", "indent": 0}]
    hs.append([{"op": "begin", "kind": "lay"}, {"op": "ser", "indent": 0}, {"op": "reparse", "indent": 0}])
    c.record("random footprints built step by step", "TraceSexp", hs)
    c.record("every step with odd words and numbers", "TraceSexp",
             [[{"op": "begin", "kind": "fp", "name": "m"}] + s + [{"op": "ser", "indent": 0}, {"op": "reparse", "indent": 0}] for s in build_survey(g)])
    g = c.lines("symbols")
    r = g.r
    hs = []
    for _ in range(c.n(300, 2500)):
        hs.append([{"op": "begin", "kind": "lib"}])
        pins = False
        for _ in range(r.randint(1, 3)):
            hs[-1].append({"op": "new_symbol", "name": r.choice(["R", "~R", "74LS00", "a-b"]), "ref": r.choice(["R", "U", "#PWR"])})
            for _ in range(r.randint(0, 2)):
                k = r.choice(["field", "rect", "pin"])
                pins = pins or k in ("pin", "field")
                hs[-1].append({"op": "fresh_part", "k": k})
            if r.random() < 0.4:
                hs[-1].append({"op": "set_name", "i": 0, "v": r.choice(["C", "x"])})
        hs[-1].append({"op": "ser", "indent": 0})
        if not pins:    # a pin without name cannot be read, and an unnamed first field is read as Reference
            hs[-1].append({"op": "reparse", "indent": 0})
    for _ in range(c.n(300, 2500)):
        d = g.comp()
        hs.append([{"op": "new", "kind": "comp", "doc": d}])
        for _ in range(r.randint(1, 3)):
            hs[-1].append({"op": "new_field", "i": g.integer(), "name": g.plain(), "v": g.value(), "x": r.choice(["0", "50", "-2.5"]), "y": r.choice(["0", "100", "12.5"])})
    for ch in [chr(i) for i in range(32, 127)] + ["é", "Н", "\u00a0", "０"]:
        hs.append([{"op": "letter", "what": w, "v": ch} for w in "oj"])
    c.record("symbols and fields built, letters", "TraceLines", hs)


@check("C28")
def c28(c):
    def h(e):
        if e["what"] == "name":
            return [([{"op": "allowed", "v": e["v"]}], [e["out"]])]
        if e["what"] == "section":
            return [([{"op": "section", "i": e["v"]}], [e["out"]])]
        return [([{"op": "flat", "f": e["v"]}], [e["out"]])]
    letters = pick(c, "letters", list("ABYZabyz0189_-. ~/\\'\"é$%:,@[`{^"), ["a", "Z", " ", "é"], c.n(8, 9))
    c.model("names up to %d characters, sections and groups of findings" % c.n(4, 5), "MC_NameRule", h,
            consts(Letters=letters, MaxLen=c.n(4, 5)), ["CharByChar", "OneEach", "FlatOnce", "Emit"])
    r = c.rng("names")
    pool = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-." * 3 + " ~/\\'!#$%&()*+,:;<=>?@[]^`{|}éΩ中\t\u00a0Ａ０ß"
    pool += "".join(x for x in dictionary.FRESH["chars"] if x.isprintable())
    hs = [[{"op": "allowed", "v": v}] for ch in sorted(set(pool)) for v in (ch, "ab" + ch, ch + "ab", "ab" + ch + "cd", ch + ch, "x" * 40 + ch, "x" * 300 + ch + "y")]
    hs += [[{"op": "allowed", "v": v}] for w in ODD_TEXTS for v in (w, w + "!", "é" + w)]
    hs += [[{"op": "allowed", "v": "".join(r.choice(pool) for _ in range(r.randint(0, 24)))}] for _ in range(c.n(1500, 12000))]
    c.record("every character, random names", "TraceLines", hs)
