"""The checks, one per property."""
import glob
import json
import os

from . import dictionary, gen
from . import text as T
from .run import REPO, ToolError

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def tla(x):
    """a Python value as a TLA+ constant"""
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, str):
        return '"' + x.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r") + '"'
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(v) for v in x)) + "}"
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(tla(v) for v in x) + ">>"
    return str(x)


def consts(**kw):
    return {k: tla(v) for k, v in kw.items()}


DATA = {
    "fp": ["cy.kicad_mod", "footprint1.kicad_mod", "footprint2.kicad_mod"],
    "tab": ["fp-lib-table"],
    "lay": ["layout1.kicad_pcb", "layout2.kicad_pcb"],
    "sch": ["schematic1.sch"],
    "lib": ["symbol_lib1-cache.lib"],
}


def sample_texts(kind):
    """files KiCad wrote, as shipped with the repository"""
    out = []
    for f in DATA[kind]:
        for p in glob.glob(os.path.join(REPO, "tests", "data", f)) + glob.glob(os.path.join(REPO, "**", f), recursive=True):
            with open(p, encoding="utf-8") as fh:
                out.append(fh.read())
            break
    return out


# ============================================================================ s-expression documents

TEXTS = ["a", "two words", "", "x)y", "50%", "{b", "-1.50", "é~#", " s "]
NUMBERS = ["0", "1", "0.15", "270"]


def pick(c, name, pool, must, n):
    """`must` plus some others of the pool, chosen by the seed"""
    r = c.rng(name)
    rest = [x for x in pool if x not in must]
    r.shuffle(rest)
    return set(must) | set(rest[:max(0, n - len(must))])


def doc_history(kind, indents=(0,)):
    def h(e):
        steps = [{"op": "new", "kind": kind, "doc": e["doc"]}, {"op": "ser", "indent": 0}, {"op": "reparse", "indent": 0}]
        return [(steps, ["ok", {"ok": e["pieces"]}, {"ok": e["doc"]}])]
    return h


def roundtrips(c, kind, n, part):
    g = c.gen(part)
    hs = []
    for i in range(n):
        d = g.doc(kind)
        hs.append([{"op": "new", "kind": kind, "doc": d}, {"op": "get"}, {"op": "ser", "indent": g.r.choice([0, 0, 1, 2, 5])},
                   {"op": "reparse", "indent": g.r.choice([0, 0, 1, 3])}, {"op": "ser", "indent": 0}])
    c.record(part, "TraceSexp", hs)
    hs = []
    for key in gen.LISTS[kind]:
        for d in gen.grown(g, lambda: g.doc(kind), key, c.n(1, 5)):
            hs.append([{"op": "new", "kind": kind, "doc": d}, {"op": "ser", "indent": 0}, {"op": "reparse", "indent": 0}])
    c.record(part + " with a long list or an entry again", "TraceSexp", hs)


def texts(c, kind, n, part, hi=None):
    """texts of random documents, as the library writes them"""
    g = c.gen(part + "/base")
    docs = [g.doc(kind) if hi is None else {"fp": g.footprint, "lay": g.board}.get(kind, lambda h: g.table())(hi) for _ in range(n)]
    outs = c.harness([[{"op": "new", "kind": kind, "doc": d}, {"op": "ser", "indent": 0}] for d in docs])
    res = []
    for o in outs:
        if len(o) > 1 and isinstance(o[1], dict) and "ok" in o[1]:
            res.append("".join(o[1]["ok"]))
    return res


def cut_sample(text, kind, rng, items=6):
    """a KiCad file reduced to a few of its items (the whole file would only cost time)"""
    t = T.tree(text)
    if len(t) > items + 2:
        keep = sorted(rng.sample(range(2, len(t)), items))
        t = t[:2] + [t[i] for i in keep]
    s = T.show(t, None)
    return s


def parse_steps(kind, txt):
    return [{"op": "parse", "kind": kind, "text": txt}]


def respelled(c, kind, n, part):
    """KiCad's own texts and the library's, in other spellings, with optional parts left out"""
    r = c.rng(part)
    hs = []
    base = texts(c, kind, n, part, 3 if kind != "tab" else None)
    samples = sample_texts(kind)
    for i, t in enumerate(base):
        if samples and i % 3 == 0:
            t = cut_sample(r.choice(samples), kind, r, 4)
        if len(t) > 6000:
            t = cut_sample(t, kind, r, 2)
        k = i % 4
        if k == 0:
            x = T.vary(t, r)
        elif k == 1:
            x = T.reshape(t, r)
        elif k == 2:
            x = T.vary(T.reshape(t, r), r)
        else:
            x = T.vary(t, r) + r.choice(["\n", "", " ", "\n\n"])
        hs.append([{"op": "parse", "kind": kind, "text": x}, {"op": "get"}] if False else parse_steps(kind, x))
    c.record(part, "TraceSexp", hs)


def damaged(c, kind, n, part):
    """texts with damage at word and character level"""
    r = c.rng(part)
    base = texts(c, kind, max(20, n // 4), part, 2 if kind != "tab" else None)
    for s in sample_texts(kind):
        base += [cut_sample(s, kind, r, 2) for _ in range(6)]
    base = [t for t in base if len(t) < 5000]
    hs = []
    for i in range(n):
        t = r.choice(base)
        k = i % 5
        if k <= 2:
            x = T.mutate_tree(t, r)
        elif k == 3:
            x = T.mutate_text(t, r)
        else:
            x = T.mutate_text(T.mutate_tree(t, r), r)
        hs.append(parse_steps(kind, x))
    if kind != "tab":
        for s in sample_texts(kind):
            for _ in range(8):
                t = T.mutate_text(cut_sample(s, kind, r, 3), r)
                hs.append(parse_steps(kind, t))
    c.record(part, "TraceSexp", hs)


# texts and numbers that a special case might be made of
ODD_TEXTS = gen.WORDS + ["A_b-C.d", "UPPER lower", "a\u00a0b", "x" * 33, "y" * 65, "z" * 130, "w" * 300, "1 2", "yes", "no", "true", "Hide", "A4", "xyz",
                         "reference", "REFERENCE", "user", "a_b", "_", ".", "..", "a.", ".a", ":", "lib:part", "?", "R?", "1.0", "-0", "00", "0.0"]
ODD_TEXTS = [w for i, w in enumerate(ODD_TEXTS) if w not in ODD_TEXTS[:i]]
ODD_NUMBERS = ["0", "1", "0.15", "2.54", "0.00001", "0.0001", "0.0000001", "45", "90", "180", "270", "360", "359.999", "720", "1000", "1000000", "123456.789",
               "0.30000000000000004", "1234567890123", "99.9999999", "1.0000001", "100000.5"] + dictionary.POSITIVE
ODD_NUMBERS = [w for i, w in enumerate(ODD_NUMBERS) if w not in ODD_NUMBERS[:i]]


def survey(c, kind):
    """every field of every item, one at a time, with every such text and number"""
    c.model("every field with odd values: " + kind, "MC_Docs", doc_history(kind), consts(Words=set(ODD_TEXTS), Nums=set(ODD_NUMBERS), Which=kind, Changes=1, Echo=True),
            ["ReadBack", "OnlyBlanks", "Emit"], heap="12g")


@check("C01")
def c01(c):
    words = pick(c, "words", TEXTS, ["a", "", "two words"], c.n(4, 9))
    nums = pick(c, "nums", NUMBERS + ["25", "2.54", "10"], ["0", "1", "0.15"], c.n(3, 6))
    c.model("footprints within two changes of a plain one", "MC_Docs", doc_history("fp"),
            consts(Words=words, Nums=nums, Which="fp", Changes=2, Echo=False), ["ReadBack", "OnlyBlanks", "Emit"], heap="12g")
    survey(c, "fp")
    roundtrips(c, "fp", c.n(1500, 12000), "random footprints")
    respelled(c, "fp", c.n(1200, 10000), "respelled footprint texts")


FORMAT_NAMES = ["module", "general", "layers", "setup", "net", "page", "zone", "polygon", "filled_polygon", "pts", "xy", "fp_text",
                "effects", "pad", "gr_text", "dimension", "segment", "model", "at", "fill", "x", "", "pcbplotparams", "net_class",
                "via", "gr_line", "crossbar", "fp_poly", "descr", "attr", "scale", "keepout", "lib", "fp_line", "path"]


@check("C02")
def c02(c):
    def h(e):
        return [([{"op": "new", "kind": "lay", "doc": e["doc"]}, {"op": "ser", "indent": 0}], ["ok", {"ok": e["pieces"]}])]
    c.model("all forests of two sections", "MC_Format", h,
            consts(Words={"a"}, Nums={"0", "1"}, Names=set(FORMAT_NAMES + dictionary.TOKENS[:5]), MaxLists=2), ["OnlyBlanks", "Emit"])
    names = pick(c, "names", FORMAT_NAMES, ["module", "pts", "xy"], c.n(11, 20))
    c.model("all forests of three sections", "MC_Format", h,
            consts(Words={"a"}, Nums={"0", "1"}, Names=names, MaxLists=3), ["OnlyBlanks", "Emit"], heap="12g")
    c.model("point lists and runs of items of any length", "MC_Points", lambda e: doc_history(e["kind"])(e),
            consts(Words={"a"}, Nums={"0", "1"}, MaxPoints=c.n(130, 300), MaxRun=c.n(7, 25)), ["OnlyBlanks", "ReadBack", "Emit"], heap="12g")
    g = c.gen("indent")
    hs = []
    for i in range(c.n(900, 9000)):
        kind = ["fp", "lay", "tab"][i % 3]
        d = g.doc(kind)
        ind = g.r.choice([0, 1, 2, 3, 7] + [n for n in dictionary.INTS if 0 <= n < 60])
        # writing what was read from the text gives the text again
        hs.append([{"op": "new", "kind": kind, "doc": d}, {"op": "ser", "indent": ind}, {"op": "reparse", "indent": ind},
                   {"op": "ser", "indent": ind}, {"op": "ser", "indent": 0}])
    c.record("random documents at any indentation", "TraceSexp", hs)
    r = c.rng("samples")
    hs = []
    for kind in ("fp", "lay", "tab"):
        for s in sample_texts(kind):
            for _ in range(c.n(3, 12)):
                hs.append([{"op": "parse", "kind": kind, "text": cut_sample(s, kind, r, 8)}, {"op": "ser", "indent": 0}])
    c.record("files KiCad wrote, written again", "TraceSexp", hs)


@check("C03")
def c03(c):
    words = pick(c, "words", TEXTS, ["a", "", "two words"], c.n(4, 9))
    nums = pick(c, "nums", NUMBERS + ["25", "2.54", "10"], ["0", "1", "0.15"], c.n(3, 5))
    if c.tier == "thorough":
        c.model("boards within 2 changes of a plain one", "MC_Docs", doc_history("lay"),
                consts(Words=words, Nums=nums, Which="lay", Changes=2, Echo=False), ["ReadBack", "OnlyBlanks", "Emit"], heap="12g")
    survey(c, "lay")
    roundtrips(c, "lay", c.n(700, 7000), "random boards")
    respelled(c, "lay", c.n(600, 5000), "respelled board texts")


def misspelled(c, name, n):
    """for each word of the formats, wrong spellings of it; as a TLA+ function"""
    r = c.rng(name)
    out = []
    for w in sorted(T.KEYWORDS):
        v = [w.upper(), w.capitalize(), w + "s", w[:-1] or "x", w + "x", w.replace("_", "-"), w.replace("_", ""), w.replace(".", ""), w.swapcase(), w[::-1], w + "."]
        v = sorted(set(x for x in v if x and x != w))
        out.append("(%s :> %s)" % (tla(w), tla(set(T.KEYWORDS[w]) | set(r.sample(v, min(n, len(v)))))))
    return " @@ ".join(out)


def every_word(c, kind):
    """every word of every kind of item, one at a time, in many wrong and unusual spellings"""
    bases = []

    def h(e):
        bases.append(e["toks"])
        toks = ['"%s"' % t if t == "" or (t not in "()" and any(x in t for x in "() ")) else t for t in e["toks"]]
        return [(parse_steps(kind, " ".join(toks)), [e["out"]])]
    c.model("plain texts: " + kind, "MC_Damage", h, consts(Words={"a"}, Nums={"0", "1"}, Which=kind, Damages=0, Stray=set(), Misplaced=set())
            | {"Misspelled": '("" :> {})'}, ["Emit"])
    seen = set()
    hs = []
    for toks in sorted(bases):
        heads = []
        for i, t in enumerate(toks):
            if t == "(":
                heads.append([toks[i + 1], 0])
                continue
            if t == ")":
                heads.pop()
                if heads:
                    heads[-1][1] += 1
                continue
            key = (tuple(x[0] for x in heads), heads[-1][1] if not T.NUM.match(t) else 0, t)
            heads[-1][1] += 1
            if key in seen:
                continue
            seen.add(key)
            for v in T.spellings(t):
                hs.append(parse_steps(kind, " ".join('"%s"' % x if x == "" or (x not in "()" and any(y in x for y in "() ")) else x
                                                     for x in toks[:i] + [v] + toks[i + 1:])))
    c.record("every word in other spellings: " + kind, "TraceSexp", hs)


@check("C04")
def c04(c):
    def h(kind):
        def f(e):
            toks = ['"%s"' % t if t == "" or (t not in "()" and any(x in t for x in "() ")) else t for t in e["toks"]]
            return [(parse_steps(kind, " ".join(toks)), [e["out"]])]
        return f
    stray = pick(c, "stray", ["x", "1", "hide", "at", "1.5", "xy", "F.Cu", "module", "net"], ["(", ")", "x"], c.n(4, 8))
    fresh = [w for w in dictionary.STRAY if not set(w) & set("()")]
    stray |= set(fresh[:2])
    for kind in ("fp", "lay", "tab"):
        c.model("one damaged token: " + kind, "MC_Damage", h(kind),
                dict(consts(Words={"a"}, Nums={"0", "1"}, Which=kind, Damages=2 if kind == "tab" and c.tier == "thorough" else 1, Stray=stray,
                            Misplaced={tuple(("( %s )" % p if p not in ("hide", "locked", "blind") else p).split(" "))
                                       for p in T.PARTS + fresh[:2] + [w + " 1" for w in fresh[:2]]}),
                     Misspelled=misspelled(c, "misspelled " + kind, c.n(2, 6))),
                ["CutRefused", "Emit"], heap="12g")
        every_word(c, kind)
        damaged(c, kind, c.n(900, 9000) if kind != "tab" else c.n(400, 3000), "damaged %s texts" % kind)


ENV = {"A": "x~", "B": "", "A_": "$B", "HOME": "/h m"}
ENV_NAMES = ["A", "B", "C", "A_", "AB", "KIGITHUB", "KISYSMOD", "é"]


@check("C08")
def c08(c):
    words = pick(c, "words", TEXTS, ["a", "", "two words"], c.n(5, 9))
    c.model("tables within %d changes" % c.n(2, 3), "MC_Docs", doc_history("tab"),
            consts(Words=words, Nums={"0", "1"}, Which="tab", Changes=c.n(2, 3), Echo=False), ["ReadBack", "OnlyBlanks", "Emit"])

    def h(es):
        steps = [{"op": "unsetenv", "k": n} for n in ENV_NAMES if n not in ENV and n.isascii()]
        steps += [{"op": "setenv", "k": k, "v": v} for k, v in ENV.items()]
        n = len(steps)
        steps.append({"op": "new", "kind": "tab", "doc": [{"name": "n", "type": "KiCad", "uri": e["s"], "options": "", "descr": ""} for e in es]})
        steps += [{"op": "expand", "i": i} for i in range(len(es))]
        return [(steps, ["ok"] * n + ["ok"] + [e["out"] for e in es])]
    c.model("all short addresses", "MC_Expand", h, consts(MaxLen=c.n(4, 5), Alphabet=set("~/${}AB_ \\")), ["PlainKept", "Emit"], batch=200)
    g = c.gen("expand")
    r = g.r
    hs = []
    for _ in range(c.n(300, 3000)):
        steps = [{"op": "unsetenv", "k": n} for n in ENV_NAMES if n.isascii()]
        parts = [w for w in dictionary.WORDS if w.isascii() and "$" not in w] + ["~", "/", "$A", "${A}", "$AB", "${KIGITHUB}", "$KISYSMOD", "$$", "$", "{", "}", "lib.pretty", " ", "é", "A", "${", "~x", "$A_", "${A",
                 "https://github.com/KiCad", "%20", "C:"]
        libs = [{"name": g.word(), "type": "KiCad", "uri": "".join(r.choice(parts) for _ in range(r.randint(0, 5))), "options": "", "descr": g.word()}
                for _ in range(r.randint(1, 3))]
        libs = [x for x in libs if "$é" not in x["uri"] and not any("$" + n + "é" in x["uri"] for n in ENV_NAMES)]
        if not libs:
            continue
        steps.append({"op": "new", "kind": "tab", "doc": libs})
        for _ in range(r.randint(2, 6)):
            k = r.random()
            if k < 0.4:
                n = r.choice([x for x in ENV_NAMES if x.isascii()] + ["HOME"])
                steps.append({"op": "setenv", "k": n, "v": r.choice(["", "/usr/share/kicad", "~", "~/x", "$A", "a b", "é"]) if n != "HOME" else r.choice(["/home/x", "/h m"])})
            elif k < 0.5:
                steps.append({"op": "unsetenv", "k": r.choice([x for x in ENV_NAMES if x.isascii()])})
            else:
                steps.append({"op": "expand", "i": r.randrange(len(libs))})
        steps.append({"op": "expand", "i": 0})
        steps.append({"op": "setenv", "k": "HOME", "v": "/verif-home"})
        hs.append(steps)
    c.record("expansion over changing environments", "TraceSexp", hs)
    survey(c, "tab")
    roundtrips(c, "tab", c.n(500, 5000), "random tables")
    respelled(c, "tab", c.n(300, 3000), "respelled table texts")
