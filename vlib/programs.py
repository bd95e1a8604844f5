"""The command-line programs."""
from . import dictionary, run
from . import text as T
from .checks import check, consts, pick, sample_texts, texts
from .edits import EMPTY, UNITS, klc_footprint, klc_survey
from .files import FOREIGN, KINDS
from .gen import LISTS, stretch, surveyed, twin
from .lines import cut_lines, line_texts, symbol_for_check, torn

PRINTERS = ["identify", "dump_footprint", "dump_layout"]
ADJUST = {"op": "program", "prog": "adjust_layout", "want": "board"}


def printed(prog, path):
    return {"op": "program", "prog": prog, "path": path, "want": "found" if prog == "identify" else "text"}


def findings(prog):
    return {"op": "program", "prog": prog, "want": "findings"}


def logged(fs):
    out = []
    for f in fs:
        out += logged(f["more"]) if "more" in f else [{"info": f["info"], "text": "%s %s:%s" % (f["rule"], f["item"], f["msg"])}]
    return out


def writable(y):
    """a symbol whose words hold no blanks can be written and read"""
    words = [y["name"].lstrip("~"), y["ref"]] + [p["name"] for p in y["draw"] if p["k"] == "pin"] + [p["number"] for p in y["draw"] if p["k"] == "pin"]
    return all(w and not any(ch.isspace() for ch in w) for w in words)


@check("C25")
def c25(c):
    run.build_programs()

    def h(e):
        steps = [{"op": "wipe", "path": "k"}, {"op": "put", "path": "k/f", "text": e["text"]}, printed("identify", "k/f")]
        want = ["ok", {"ok": "ok"}, {"ok": "found: " + e["shown"] + (": k/f" if e["kind"] == "unknown" else "") + "\n"}]
        for prog, k in (("dump_footprint", "fp"), ("dump_layout", "lay")):
            steps.append(printed(prog, "k/f"))
            want.append({"ok": e["dump"][0]} if e["kind"] == k else {"err": True})
        return [(steps, want)]
    heads = pick(c, "heads", ["module", "kicad_pcb", "fp_lib_table", "footprint", "Module", "lib", "a"], ["module", "kicad_pcb", "fp_lib_table"], c.n(3, 7))
    firsts = pick(c, "firsts", ["EESchema Schematic File Version 2", "EESchema-LIBRARY Version 2.3", "EESchema Schematic File Version 3", "eeschema", "update="],
                  ["EESchema Schematic File Version 2", "EESchema-LIBRARY Version 2.3"], c.n(3, 5))
    c.model("documents of every kind, printed", "MC_Kinds", h,
            consts(Words={"a"}, Nums={"0", "1"}, Leads=pick(c, "leads", ["", " ", "\n", "x ", "\t"], ["", " "], c.n(3, 5)),
                   Tails=pick(c, "tails", ["", "\n", " x", ")"], ["", "\n"], c.n(2, 4)), Heads=heads, FirstLines=firsts), ["AtMostOne", "OwnKind", "Emit"], thin=c.n(400, 3000))

    def moved(e):
        if e["kind"] != "lay" or e["moves"] != [{"x": 1280000, "y": 0}]:
            return []
        return [([UNITS, {"op": "new", "kind": "lay", "doc": e["doc"]}, ADJUST], ["ok", "ok", {"ok": e["after"]}])]
    c.model("every board item, moved", "MC_Move", moved, consts(Offsets={0, 1280000}, MaxMoves=1), ["AddsUp", "Emit"])

    def fps(e):
        # the program checks with one configuration only
        if e["cfg"] != {"size": 12800, "thickness": 1920}:
            return []
        return [([UNITS, {"op": "new", "kind": "fp", "doc": e["doc"]}, findings("klc_kicad_mod")], ["ok", "ok", {"ok": logged(e["found"])}])]
    c.model("every combination of broken footprint rules of a part", "MC_Klc", fps, consts(Names={"R"}, Sizes={12800, 15360}, Thicks={1920}, Level=1),
            ["OnePerRule", "Emit"], thin=c.n(400, 3000))

    def syms(es):
        return [([{"op": "new", "kind": "lib", "doc": [e["doc"] for e in es]}, findings("klc_symbol_lib")], ["ok", {"ok": logged([f for e in es for f in e["out"]])}])]
    c.model("symbols within two changes of a good one", "MC_SymCheck", syms,
            consts(Texts={"a"}, Names={"R"}, Ints={"0"}, Floats={"0.5"}, Spoilt=False, Changes=2, Coords={"50", "10"}, Lengths={"50", "350"}, Sizes={"50", "40"},
                   SymNames={"~AB", "a/b"}, PinNames={"NC", "SYNC"}, Refs={"#PWR", "#FLG"}), ["StartsQuiet", "Emit"], batch=10, thin=c.n(2000, 15000))

    for spoilt in (False, True):
        c.model("every single change of %s symbols" % ("spoilt" if spoilt else "good"), "MC_SymCheck", syms,
                consts(Texts={"a"}, Names={"R"}, Ints={"0"}, Floats={"0.5"}, Spoilt=spoilt, Changes=1, Coords={"50", "10"}, Lengths={"50", "350", "-30"}, Sizes={"50", "40"},
                       SymNames={"~AB", "a/b", "R", "~R", "~a/b"}, PinNames={"NC", "SYNC", "~NC"}, Refs={"#PWR", "#FLG", "#", "#PWR1", "U"}), ["StartsQuiet", "Emit"], batch=4)

    r = c.rng("files")
    base = {k: texts(c, k, 12, "programs " + k, 2 if k != "tab" else None) for k in ("fp", "lay", "tab")}
    for k in ("sch", "lib"):
        base[k] = line_texts(c, k, 10, "programs " + k, 2) + [cut_lines(s, k, r, 2) for s in sample_texts(k) for _ in range(2)]
    base["project"] = ["update=\n", "update=1\n[x]\n"]
    hs = []
    for _ in range(c.n(250, 2500)):
        if r.random() < 0.2:
            t = r.choice(FOREIGN)
        else:
            kd = r.choice(KINDS + ["fp", "lay"])
            t = r.choice(base[kd])
            if r.random() < 0.3:
                t = torn(t, r) if kd in ("sch", "lib", "project") else T.mutate_text(t, r)
        where = r.choice(["k/f", "k/f", "k/f", "k/none", "k"])
        hs.append([{"op": "wipe", "path": "k"}, {"op": "put", "path": "k/f", "text": t}] + [printed(p, where) for p in PRINTERS])
    c.record("files printed", "TraceFiles", hs)
    g = c.gen("long")
    hs = []
    for k, prog in (("fp", "dump_footprint"), ("lay", "dump_layout")):
        docs = [stretch(g, lambda: g.doc(k), key, n) for key in LISTS[k] for n in [21, 130] + dictionary.LENGTHS[:6]] + [twin(g, lambda: g.doc(k), key, n) for key in LISTS[k] for n in range(7)]
        for d, t in zip(docs, c.harness([[{"op": "new", "kind": k, "doc": d}, {"op": "ser", "indent": 0}] for d in docs])):
            if len(t) > 1 and isinstance(t[1], dict) and "ok" in t[1]:
                hs.append([{"op": "wipe", "path": "k"}, {"op": "put", "path": "k/f", "text": "\n".join(t[1]["ok"])}, printed("identify", "k/f"), printed(prog, "k/f")])
    c.record("long files printed", "TraceFiles", hs)
    g = c.units("boards")
    items = [x for _, x in surveyed(g, "layel")]
    hs = [[UNITS, {"op": "new", "kind": "lay", "doc": dict(EMPTY, el=items[i:i + 10])}, ADJUST] for i in range(0, len(items), 10)]
    for s in klc_survey(c, False):
        if r.random() < c.n(0.15, 1):
            hs.append(s[:2] + [findings("klc_kicad_mod")])
    c.record("every item with one part another, moved and checked", "TraceEdit", hs)
    hs = [[UNITS, {"op": "new", "kind": "lay", "doc": g.board(5)}, ADJUST] for _ in range(c.n(150, 1500))]
    for i in range(c.n(200, 2000)):
        k = c.units("klc/%d" % i, step=3200, quarters=True)
        hs.append([UNITS, {"op": "new", "kind": "fp", "doc": klc_footprint(k)}, findings("klc_kicad_mod")])
    c.record("random boards moved, random footprints checked", "TraceEdit", hs)
    g = c.lines("libraries")
    hs = []
    for _ in range(c.n(150, 1500)):
        d = [y for y in (symbol_for_check(g) for _ in range(g.r.randint(1, 5))) if writable(y)]
        if d:
            hs.append([{"op": "new", "kind": "lib", "doc": d}, findings("klc_symbol_lib")])
    c.record("random symbol libraries checked", "TraceLines", hs)
