"""Checks over geometry, edits, net names and conventions of footprints and boards."""
from .checks import ODD_TEXTS, check, consts, pick
from .gen import LISTS, QUARTER, SIDES, UNIT, WORDS, Full, family, grown, near, surveyed, variants

UNITS = {"op": "mode", "m": "unit"}


def offset(g):
    return {"x": g.snum(), "y": g.snum()}


def long_docs(c, g, kind):
    """documents in which one list is long"""
    for key in LISTS[kind]:
        yield from grown(g, lambda: g.doc(kind), key, c.n(1, 4))


ITEM_LISTS = {"fpel": ["pts", "layers"],
              "layel": ["polygons", "polygons.", "filled_polygons", "filled_polygons.", "fill_segments.", "pts", "layers", "el", "el.el", "feature1", "feature2", "crossbar", "arrow1a",
                        "arrow1b", "arrow2a", "arrow2b"]}


def long_items(c, g):
    """single items in which one list is long, with their kind"""
    for kind, make in (("fpel", g.fpitem), ("layel", g.layitem)):
        for key in ITEM_LISTS[kind]:
            for d in grown(g, make, key, c.n(1, 4)):
                yield kind, d


def alone(x, w):
    """a footprint of an item, before and after the one it was made from"""
    return {"name": "m", "el": [x, w, x]}


# ------------------------------------------------------------------------------------------- moving

@check("C11")
def c11(c):
    def h(e):
        steps = [UNITS, {"op": "new", "kind": e["kind"], "doc": e["doc"]}]
        steps += [dict(m, op="adjust") for m in e["moves"]]
        wants = ["ok", "ok"] + [None] * (len(e["moves"]) - 1) + [e["after"]]
        return [(steps, wants)]
    c.model("every item kind moved %d times" % c.n(2, 3), "MC_Move", h,
            consts(Offsets={0, 12800, -33280} if c.tier == "quick" else {0, 640, -33280}, MaxMoves=c.n(2, 3)), ["AddsUp", "Restores", "AlongBox", "Emit"])
    g = c.units("moves")
    hs = []
    for i in range(c.n(900, 9000)):
        kind, d = [("lay", lambda: g.board(6)), ("layel", g.layitem), ("fp", lambda: g.footprint(6))][i % 3]
        steps = [UNITS, {"op": "new", "kind": kind, "doc": d()}]
        o = offset(g)
        steps.append(dict(o, op="adjust"))
        for _ in range(g.r.randint(0, 3)):
            steps.append(dict(offset(g), op="adjust"))
        steps.append({"op": "adjust", "x": -o["x"], "y": -o["y"]})
        hs.append(steps)
    c.record("random boards, items and footprints moved about", "TraceEdit", hs)
    hs = [[UNITS, {"op": "new", "kind": "layel", "doc": x}, {"op": "adjust", "x": 12800, "y": -33280}] for _, x in surveyed(g, "layel")]
    hs += [[UNITS, {"op": "new", "kind": "fp", "doc": alone(x, w)}, {"op": "adjust", "x": -640, "y": 25600}] for w, x in surveyed(g, "fpel")]
    c.record("every item with one part another, moved", "TraceEdit", hs)
    hs = [[UNITS, {"op": "new", "kind": k, "doc": d}, dict(offset(g), op="adjust")] for k in ("fp", "lay") for d in long_docs(c, g, k)]
    hs += [[UNITS, {"op": "new", "kind": k, "doc": d}, dict(offset(g), op="adjust")] for k, d in long_items(c, g) if k == "layel"]
    c.record("long lists moved", "TraceEdit", hs)


# -------------------------------------------------------------------------------------------- boxes

def box(g):
    if g.b(0.2):
        return {"b": False, "x1": 0, "y1": 0, "x2": 0, "y2": 0}
    x, y = g.snum(), g.snum()
    return {"b": True, "x1": x, "y1": y, "x2": x + g.num(), "y2": y + g.num()}


def sch_part(g):
    """components and sheets with whole numbers; the other parts take no room"""
    r = g.r

    def n():
        return r.choice([0, 50, 1000, 5300, -200, r.randint(-3000, 12000)])
    comp = {"k": "comp", "name": "R", "ref": "R1", "u": "1 1 5A", "x": n(), "y": n(), "ar": [], "rot": ["1", "0", "0", "-1"],
            "fields": [{"i": 0, "value": "R1", "o": "H", "x": "77", "y": "88", "size": 60, "visible": True, "h": "C", "v": "C", "italic": False,
                        "bold": False, "name": ""}]}
    k = r.random()
    if k < 0.6:
        return comp
    if k < 0.8:
        return {"k": "wire", "t": "Wire", "x1": n(), "y1": n(), "x2": n(), "y2": n()}
    return {"k": "conn", "x": n(), "y": n()}


def sheet_part(g):
    r = g.r
    return {"x": r.randint(0, 9000), "y": r.randint(0, 9000), "dimx": r.choice([0, 50, 1000]), "dimy": r.choice([0, 50, 700]), "unique": "5A",
            "name": "s", "name_size": 60, "filename": "s.sch", "filename_size": 60, "labels": []}


DESCR = {"size": "A4", "dimx": 11693, "dimy": 8268, "title": "", "date": "", "rev": "", "comp": "", "comment1": "", "comment2": "",
         "comment3": "", "comment4": "", "sheet": 1, "sheet_count": 1}


@check("C12")
def c12(c):
    def h(e):
        if e["kind"] == "boxes":
            return [([UNITS, {"op": "newbound"}] + [{"op": "bupdate", "b": b} for b in e["doc"]], ["ok", "ok"] + e["steps"])]
        return [([UNITS, {"op": "new", "kind": e["kind"], "doc": e["doc"]}, {"op": "bbox"}], ["ok", "ok", e["box"]])]
    quick = c.tier == "quick"
    c.model("every item kind, pairs of items and merges of boxes", "MC_Box", h,
            consts(Coords={0, 12800, -23040} if quick else {0, 12800, -23040, 3200}, Quarters=set(range(-5, 6)) if quick else set(range(-13, 14)),
                   Sizes={0, 12800, 30720}), ["SmallFirst", "SwapEnds", "AnyOrder", "Parts", "MergeLaws", "Emit"])
    g = c.units("boxes", quarters=True)
    r = g.r
    hs = []
    for i in range(c.n(2000, 16000)):
        k = i % 6
        if k == 0:
            hs.append([UNITS, {"op": "new", "kind": "lay", "doc": g.board(7)}, {"op": "bbox"}, dict(offset(g), op="adjust"), {"op": "bbox"}])
        elif k == 1:
            hs.append([UNITS, {"op": "new", "kind": "layel", "doc": g.layitem()}, {"op": "bbox"}])
        elif k == 2:
            hs.append([UNITS, {"op": "new", "kind": "fp", "doc": g.footprint(8)}, {"op": "bbox"}, {"op": "flip"}, {"op": "bbox"},
                       {"op": "rotate", "r": QUARTER * r.choice([1, 2, 3, -1])}, {"op": "bbox"}])
        elif k == 3:
            hs.append([UNITS, {"op": "new", "kind": "fpel", "doc": g.fpitem()}, {"op": "bbox"}])
        elif k == 4:
            steps = [UNITS, {"op": "newbound"}]
            if r.random() < 0.6:
                whole = r.random() < 0.5
                steps[1] = {"op": "corners", "whole": whole}
                steps[1].update({k: r.choice([0, r.randint(-9, 9), r.randint(-9000, 9000)]) * (UNIT if whole else 640) for k in ("x1", "y1", "x2", "y2")})
                steps.append({"op": "bdims"})
            for _ in range(r.randint(1, 6)):
                steps.append({"op": "bupdate", "b": box(g)})
                if steps[-1]["b"]["b"]:
                    steps.append({"op": "bdims"})
            hs.append(steps)
        elif r.random() < 0.3:
            d = sch_part(g)
            d["k"] = "comp"
            if "name" in d:
                d.pop("k")
                hs.append([UNITS, {"op": "new", "kind": "comp", "doc": d}, {"op": "bbox"}])
        else:
            hs.append([UNITS, {"op": "new", "kind": "sch", "doc": {"libs": [], "eelayer": "EELAYER 25 0", "descr": DESCR, "el": g.some(lambda: sch_part(g), 0, 4),
                                                                   "sheets": g.some(lambda: sheet_part(g), 0, 3)}}, {"op": "bbox"}])
    c.record("random documents, items and merges", "TraceEdit", hs)
    hs = [[UNITS, {"op": "new", "kind": k, "doc": x}, {"op": "bbox"}] for k in ("layel", "fpel") for _, x in surveyed(g, k)]
    fab = {"k": "fp_line", "start": {"t": "start", "x": 0, "y": 0}, "end": {"t": "end", "x": 640, "y": 640}, "layer": {"s": "F", "t": "Fab"}, "width": 1280}
    hs += [[UNITS, {"op": "new", "kind": "fp", "doc": {"name": "m", "el": el}}, {"op": "bbox"}] for _, x in surveyed(g, "fpel") for el in ([x], [fab, x])]
    c.record("boxes of every item with one part another", "TraceEdit", hs)
    hs = [[UNITS, {"op": "new", "kind": k, "doc": d}, {"op": "bbox"}] for k in ("fp", "lay") for d in long_docs(c, g, k)]
    hs += [[UNITS, {"op": "new", "kind": k, "doc": d}, {"op": "bbox"}] for k, d in long_items(c, g)]
    c.record("boxes of long lists", "TraceEdit", hs)


# ----------------------------------------------------------------------------------- flips and turns

@check("C13")
def c13(c):
    def h(e):
        steps = [UNITS, {"op": "new", "kind": e["kind"], "doc": e["doc"]}]
        steps += [{"op": "flip"} if o["op"] == "flip" else {"op": "rotate", "r": o["r"]} for o in e["ops"]]
        return [(steps, ["ok", "ok"] + [None] * (len(e["ops"]) - 1) + [e["after"]])]
    angles = [0, 90, 180, -90, 45, 359] if c.tier == "quick" else [0, 90, 180, 270, -90, 45, 359, -400, 725, 360]
    turns = [90, 180, -90, 30, -359] if c.tier == "quick" else [90, 180, 270, -90, 30, -359, 0, 359]
    c.model("items and a footprint, %d flips and turns" % c.n(2, 3), "MC_Flip", h,
            consts(Angles={a * UNIT for a in angles}, Turns={t * UNIT for t in turns}, MaxOps=c.n(2, 3)),
            ["TwiceRestores", "FullTurn", "WithinOneTurn", "Emit"], heap="12g")
    g = c.units("flips")
    r = g.r
    hs = []
    for i in range(c.n(1500, 12000)):
        kind, d = [("fp", lambda: g.footprint(7)), ("fpel", g.fpitem)][i % 2]
        steps = [UNITS, {"op": "new", "kind": kind, "doc": d()}]
        for _ in range(r.randint(1, 5)):
            steps.append({"op": "flip"} if r.random() < 0.5 else {"op": "rotate", "r": r.choice([QUARTER, -QUARTER, 2 * QUARTER, 3 * QUARTER, 0, r.randint(-359, 359) * UNIT])})
        hs.append(steps)
    c.record("random footprints and items flipped and turned", "TraceEdit", hs)
    hs = []
    for w, x in surveyed(g, "fpel"):
        hs.append([UNITS, {"op": "new", "kind": "fpel", "doc": x}, {"op": "flip"}, {"op": "rotate", "r": QUARTER}, {"op": "flip"}])
        hs.append([UNITS, {"op": "new", "kind": "fp", "doc": alone(x, w)}, {"op": "rotate", "r": -2 * QUARTER}, {"op": "flip"}])
    c.record("every item with one part another, flipped and turned", "TraceEdit", hs)
    hs = [[UNITS, {"op": "new", "kind": "fp", "doc": d}, {"op": "flip"}, {"op": "rotate", "r": QUARTER}] for d in long_docs(c, g, "fp")]
    hs += [[UNITS, {"op": "new", "kind": k, "doc": d}, {"op": "flip"}, {"op": "rotate", "r": QUARTER}] for k, d in long_items(c, g) if k == "fpel"]
    c.record("long lists flipped and turned", "TraceEdit", hs)


# ------------------------------------------------------------------------------------------ net names

EMPTY = {"version": "4", "host": {"tool": "pcbnew", "build": "custom"},
         "general": {"links": "0", "no_connects": "0", "area": {"x1": 0, "y1": 0, "x2": 0, "y2": 0}, "thickness": 20480, "drawings": "0", "tracks": "0", "zones": "0", "modules": "0", "nets": "0"},
         "page": "A4", "setup": [], "plot": [], "layers": [], "el": []}
NET_POOL = ["GND", "a", "/a/b", "/a/a/b", "/b/a/", "/a/", "/x/a/y", "Net-(R1-Pad2)", "Net-(U1-Pad1)", "/ab/a/c", "", "a/b"]


def net_rule(g):
    r = g.r
    k = r.random()
    if k < 0.25:
        return {"rule": "rename", "from": g.name(), "to": r.choice(g.nets + ["new"])}
    if k < 0.55:
        f = r.choice(["a", "b", "ab", "x", "é"] + [x for n in g.nets for x in n.split("/") if x])
        return {"rule": "block", "from": f, "to": r.choice(["a", "b", "q q", "long/er", "", "é", near(r, f), f + "/" + f, "b/" + f + "/b"])}
    if k < 0.7:
        return {"rule": "prefix", "p": r.choice(["/", "p", "/a"])}
    if k < 0.85:
        return {"rule": "unnamed", "to": r.choice(["R9", "U10", "Q q"])}
    return {"rule": "failon", "name": r.choice(g.nets + ["never"]), "p": "f"}


def netted(c, g):
    """a board on which many things are on nets, with names that are almost the same"""
    r = g.r
    g.nets = family(r, r.sample(NET_POOL, 3), 5) if r.random() < 0.7 else NET_POOL
    b = g.board(6)
    for _ in range(r.randint(0, 2)):
        f = g.footprint(2)
        for _ in range(r.randint(1, 4)):
            f["el"].insert(r.randint(0, len(f["el"])), dict(g.pad(), net=[{"num": r.choice(["0", "1", "2", "-1", "300"]), "name": g.name()}]))
        b["el"].insert(r.randint(0, len(b["el"])), {"k": "module", "v": f})
    return b


def edit_steps(e):
    """the steps of an emitted edit sequence"""
    return [dict(o) for o in e["ops"]]


@check("C10")
def c10(c):
    def h(e):
        steps = [UNITS, {"op": "new", "kind": "lay", "doc": e["doc"]}] + e["ops"]
        wants = ["ok", "ok"] + [None] * (len(e["ops"]) - 1)
        last = e["ops"][-1]
        if e["refused"]:
            wants.append({"err": True})
        elif last["op"] == "update_net_names":
            wants.append({"ok": e["after"]})
        else:
            wants.append(e["after"])
        return [(steps, wants)]
    names = {"a", "/a/b", "Net-(R1-Pad2)"} if c.tier == "quick" else {"a", "/a/b", "/a/a/b", "Net-(R1-Pad2)"}
    inv = ["StillTheSame", "NothingElse", "RenameExact", "Emit"]
    c.model("every place a board names a net, one renaming", "MC_Nets", h, consts(Names=names | {"/a/a/b", "b"}, Targets={"b", "/c/d"}, Thirds=set(range(1, 7)), MaxOps=1), inv, thin=c.n(25000, None))
    c.model("every place a board names a net, two renamings", "MC_Nets", h, consts(Names=names if c.tier == "thorough" else {"a", "/a/a/b"}, Targets={"b"}, Thirds={5} if c.tier == "quick" else {1, 3, 5}, MaxOps=2), inv, heap="12g")

    def hn(es):
        out = []
        for e in es:
            if e["kind"] == "block":
                steps, wants = [], []
                for q in e["rules"]:
                    steps += [{"op": "new", "kind": "net", "doc": e["s"]}, {"op": "net", "rule": "block", "from": q["from"], "to": q["to"]}]
                    wants += ["ok", {"ok": q["out"]}]
            else:
                steps = [{"op": "new", "kind": "net", "doc": e["s"]}, {"op": "unnamed"}, {"op": "show"}, {"op": "set_unnamed", "to": "Q7"}]
                wants = ["ok", e["un"], e["s"], e["set"]]
            out.append((steps, wants))
        return out
    c.model("all short net names", "MC_Names", hn, consts(Letters={"/", "a", "b"}, MaxLen=c.n(7, 9), Froms={"a", "b", "ab", "aa", ""}, Tos={"b", "", "aab", "a", "b/a", "b/a/b", "a/a"}),
            ["ByParts", "Emit"], batch=50)
    g = c.units("nets", nets=NET_POOL, refs=["U1", "R1"])
    hs = []
    for i in range(c.n(800, 8000)):
        if i % 5 == 4:
            g.nets = family(g.r, g.r.sample(NET_POOL, 3), 5)
            steps = [{"op": "new", "kind": "net", "doc": g.name()}]
            for _ in range(g.r.randint(1, 4)):
                steps.append(dict(net_rule(g), op="net"))
                steps.append({"op": "unnamed"})
            hs.append(steps)
            continue
        b = netted(c, g)
        if i % 5 == 3:
            # a footprint on its own
            f = next((e["v"] for e in b["el"] if e["k"] == "module"), None) or g.footprint(6)
            hs.append([UNITS, {"op": "new", "kind": "fp", "doc": f}] + [{"op": "rename_net", "old": g.name(), "new": g.r.choice(g.nets + ["new"])} for _ in range(g.r.randint(1, 4))])
            continue
        steps = [UNITS, {"op": "new", "kind": "lay", "doc": b}]
        for _ in range(g.r.randint(1, 4)):
            if g.b():
                steps.append({"op": "change_net_name", "old": g.name(), "new": g.r.choice(g.nets + ["new"])})
            else:
                rule = net_rule(g)
                steps.append(dict(rule, op="update_net_names"))
                if rule["rule"] == "failon":
                    break
        hs.append(steps)
    c.record("random boards and renamings", "TraceEdit", hs)
    g.nets = ["a", "/a/b", "Net-(R1-Pad2)"]
    hs = []
    for w, x in surveyed(g, "layel"):
        if x["k"] in ("net", "net_class", "zone", "module"):
            hs.append([UNITS, {"op": "new", "kind": "lay", "doc": dict(EMPTY, el=[x, w])}, {"op": "update_net_names", "rule": "prefix", "p": "q"}])
    for w, x in surveyed(g, "fpel"):
        if x["k"] == "pad":
            hs.append([UNITS, {"op": "new", "kind": "lay", "doc": dict(EMPTY, el=[{"k": "module", "v": alone(x, w)}])}, {"op": "update_net_names", "rule": "block", "from": "a", "to": "c"},
                       {"op": "change_net_name", "old": x["net"][0]["name"] if x["net"] else "b", "new": "z"}])
            hs.append([UNITS, {"op": "new", "kind": "fp", "doc": alone(x, w)}, {"op": "rename_net", "old": x["net"][0]["name"] if x["net"] else "b", "new": "z"}])
    c.record("every item on a net with one part another, renamed", "TraceEdit", hs)
    hs = []
    for key in ("el", "el.el", "nets", "nets"):
        for d in grown(g, lambda: netted(c, g), key, c.n(1, 3)):
            used = [m for e in d["el"] for m in ([e["name"]] if e["k"] == "net" else e["nets"] if e["k"] == "net_class" else
                                                 [p["net"][0]["name"] for p in e["v"]["el"] if p["k"] == "pad" and p["net"]] if e["k"] == "module" else [])]
            hs.append([UNITS, {"op": "new", "kind": "lay", "doc": d}, dict(net_rule(g), op="update_net_names", rule="prefix", p="q"),
                       {"op": "change_net_name", "old": "q" + (used or ["a"])[-1], "new": "last"}])
    c.record("long lists renamed", "TraceEdit", hs)
    hs = []
    odd = ODD_TEXTS + NET_POOL + [" /a", "/a ", "/ a/b", "//", "/a//b", "Net-()", "Net-(-)", "Net-(R1-)", "Net-(R1-Pad1", "net-(R1-Pad1)", "Net-(R1-Pad1))", "Net-(R-1-Pad1)", "N-0001"]
    for i, t in enumerate(odd):
        for s in ("Net-(R1-Pad2)", "Net-(U?-Pad~1)", "/a/b", "a"):
            for rule in ({"rule": "block", "from": "a", "to": t}, {"rule": "unnamed", "to": t}, {"rule": "rename", "from": s, "to": t}):
                hs.append([{"op": "new", "kind": "net", "doc": s}, dict(rule, op="net"), {"op": "unnamed"}])
            hs.append([{"op": "new", "kind": "net", "doc": s}, {"op": "set_unnamed", "to": t}])
        hs.append([{"op": "new", "kind": "net", "doc": t}, {"op": "unnamed"}, {"op": "set_unnamed", "to": "Q7"}])
        hs.append([{"op": "new", "kind": "net", "doc": "Net-(%s-Pad%s)" % (t, t)}, {"op": "unnamed"}, {"op": "set_unnamed", "to": "Q7"}])
        for k in (0, 1, 7):
            # every place of a board
            u = odd[(i + k) % len(odd)]
            g.nets = [t]
            z, cl, p = g.layitem("zone"), g.layitem("net_class"), dict(g.pad(), net=[{"num": "1", "name": t}])
            cl["nets"] = [t, u, t + "x"]
            d = dict(g.board(0), el=[{"k": "net", "num": "1", "name": t}, {"k": "net", "num": "2", "name": u}, cl, z, {"k": "module", "v": {"name": "m", "el": [p]}}])
            hs.append([UNITS, {"op": "new", "kind": "lay", "doc": d}, {"op": "change_net_name", "old": t, "new": u + "y" if k == 0 else u}])
            hs.append([UNITS, {"op": "new", "kind": "lay", "doc": d}, {"op": "update_net_names", "rule": "rename", "from": t, "to": u}])
    c.record("odd names", "TraceEdit", hs)


# --------------------------------------------------------------------------------- edits and look-ups

def fp_edit(g, inner=False):
    r = g.r
    k = r.randint(0, 6 if inner else 7)
    refs = g.refs or ["U1"]
    if k == 0:
        return {"op": "set_reference", "old": r.choice(refs), "new": r.choice(refs + ["X1"])}
    if k == 1:
        return dict(offset(g), op="adjust_at")
    if k == 2:
        return {"op": "rename_net", "old": g.name(), "new": g.name()}
    if k == 3:
        return {"op": "append", "el": g.fpitem()}
    if k == 4:
        return {"op": "set_text", "which": r.choice(["reference", "value", "user"]), "v": r.choice(refs + [g.word()])}
    if k == 5:
        return {"op": "flip"}
    if k == 6:
        return {"op": "rotate", "r": QUARTER * r.choice([1, 2, 3, -1])}
    return dict(offset(g), op="adjust")


def fp_look(g):
    return {"op": "look", "ref": g.r.choice(g.refs + ["X1"]), "which": g.r.choice(["reference", "value", "user"])}


@check("C23")
def c23(c):
    def h(e):
        steps = [UNITS, {"op": "new", "kind": "fp", "doc": e["doc"]}] + e["ops"]
        wants = ["ok", "ok"] + [None] * len(e["ops"])
        steps += [{"op": "get"}, {"op": "look", "ref": "U1", "which": "user"}, {"op": "look", "ref": "U3", "which": "value"}]
        wants += [e["after"], e["looks"]["U1"], e["looks"]["U3"]]
        for k, o in enumerate(e["ops"]):
            if o["op"] == "set_text" and k == len(e["ops"]) - 1:
                wants[2 + k] = {"hit": e["hits"][k], "doc": e["after"]}
        return [(steps, wants)]
    every = list(range(1, 20))
    c.model("footprints of two items, two edits", "MC_FpEdit", h, consts(Items=pick(c, "two", every, [1, 5, 8], c.n(10, 19)), MaxItems=2, MaxOps=2),
            ["Keeps", "OnlyAddressed", "Emit"], heap="12g")
    c.model("footprints of three items, one edit", "MC_FpEdit", h, consts(Items=pick(c, "three", every, [2, 4, 9], c.n(11, 19)), MaxItems=3, MaxOps=1),
            ["Keeps", "OnlyAddressed", "Emit"], heap="12g")
    g = c.units("edits", nets=["a", "b", "c", ""], refs=["U1", "U2", "R1"])
    hs = []
    for _ in range(c.n(900, 9000)):
        g.refs = family(g.r, ["U1", "U2", "R1"], 3) if g.b(0.6) else ["U1", "U2", "R1"]
        g.nets = family(g.r, ["a", "b", ""], 3) if g.b(0.6) else ["a", "b", "c", ""]
        steps = [UNITS, {"op": "new", "kind": "fp", "doc": g.footprint(9)}, fp_look(g)]
        for _ in range(g.r.randint(1, 7)):
            steps += [fp_edit(g), fp_look(g)]
        hs.append(steps)
    for d in long_docs(c, g, "fp"):
        hs.append([UNITS, {"op": "new", "kind": "fp", "doc": d}])
        for _ in range(3):
            hs[-1] += [fp_edit(g), fp_look(g)]
    c.record("random footprints, edits and look-ups", "TraceEdit", hs)
    hs = []
    g.refs, g.nets = ["U1", "U2"], ["a", "b"]
    for w, x in surveyed(g, "fpel"):
        t = x["value"] if x["k"] == "fp_text" else "U1"
        n = x["net"][0]["name"] if x["k"] == "pad" and x["net"] else "a"
        look = [{"op": "look", "ref": t, "which": k} for k in ("reference", "value")]
        hs.append([UNITS, {"op": "new", "kind": "fp", "doc": {"name": "m", "el": [x]}}] + look + [{"op": "set_reference", "old": t, "new": "X1"}, {"op": "look", "ref": "X1", "which": "user"}])
        hs.append([UNITS, {"op": "new", "kind": "fp", "doc": alone(w, x)}] + look[:1] + [{"op": "adjust_at", "x": 640, "y": -12800}, {"op": "rename_net", "old": n, "new": "c"},
                  {"op": "set_text", "which": "value", "v": "V"}] + look[1:])
    c.record("footprints of every item with one part another", "TraceEdit", hs)


SETUP_NAMES = ["last_trace_width", "via_size", "pad_size", "grid_origin", "visible_elements", "new_one", "x y"]


@check("C19")
def c19(c):
    def h(e):
        steps = [UNITS, {"op": "new", "kind": "lay", "doc": e["doc"]}] + e["ops"]
        wants = ["ok", "ok"] + [None] * len(e["ops"])
        if e["ops"][-1]["op"] == "modify_module":
            wants[-1] = {"hit": e["hits"][-1], "doc": e["after"]}
        steps += [{"op": "get"}, {"op": "look", "ref": "U1", "net": "b", "setup": "s"}, {"op": "look", "ref": "U2", "net": "z", "setup": "u"}]
        return [(steps, wants + [e["after"]] + e["looks"])]
    every = list(range(1, 14))
    c.model("boards of two items, two edits", "MC_BoardEdit", h, consts(Items=pick(c, "two", every, [5, 6, 7], c.n(6, 9)), MaxItems=2, MaxOps=2, Variety=1),
            ["Keeps", "Quiet", "Emit"], heap="12g", thin=c.n(20000, None))
    c.model("boards of three items, one edit", "MC_BoardEdit", h, consts(Items=pick(c, "three", every, [2, 5, 11], c.n(7, 13)), MaxItems=3, MaxOps=1, Variety=2),
            ["Keeps", "Quiet", "Emit"], heap="12g", thin=c.n(15000, None))
    g = c.units("edits", nets=["a", "b", "c", ""], refs=["U1", "U2", "R1"])
    r = g.r

    def setup_name():
        n = r.choice(SETUP_NAMES)
        return n if g.b(0.8) else near(r, n)

    def edit():
        k = r.randint(0, 6)
        if k == 0:
            return {"op": "add_net", "num": r.choice([0, 1, 7, 255, -1]), "name": g.name()}
        if k == 1:
            return {"op": "add_netclass", "nc": g.netclass()}
        if k <= 3:
            return {"op": "modify_module", "ref": r.choice(g.refs + ["X1"]), "edit": fp_edit(g, True)}
        if k == 4:
            return {"op": "update_setup", "name": setup_name(), "v": g.word()}
        if k == 5:
            return {"op": "change_net_name", "old": g.name(), "new": g.name()}
        return dict(offset(g), op="adjust")
    hs = []
    for _ in range(c.n(700, 7000)):
        g.refs = family(r, ["U1", "U2", "R1"], 3) if g.b(0.6) else ["U1", "U2", "R1"]
        g.nets = family(r, ["a", "/b", ""], 3) if g.b(0.6) else ["a", "b", "c", ""]
        b = g.board(8)
        if r.random() < 0.7:
            # more than one footprint, some with the same reference
            for _ in range(r.randint(1, 3)):
                f = g.footprint(3)
                f["el"].insert(r.randint(0, len(f["el"])), dict(g.text(), name="reference", value=r.choice(g.refs)))
                b["el"].insert(r.randint(0, len(b["el"])), {"k": "module", "v": f})
        if r.random() < 0.5:
            nc = g.netclass()
            b["el"] += [nc, dict(nc, nets=g.some(g.name, 0, 3))]
        steps = [UNITS, {"op": "new", "kind": "lay", "doc": b}]
        for _ in range(r.randint(1, 5)):
            steps += [edit(), {"op": "look", "ref": r.choice(g.refs + ["X1"]), "net": g.name(), "setup": setup_name()}]
        hs.append(steps)
    for d in long_docs(c, g, "lay"):
        hs.append([UNITS, {"op": "new", "kind": "lay", "doc": d}])
        for _ in range(3):
            hs[-1] += [edit(), {"op": "look", "ref": r.choice(g.refs + ["X1"]), "net": g.name(), "setup": setup_name()}]
    c.record("random boards, edits and look-ups", "TraceEdit", hs)
    hs = []
    g.refs, g.nets = ["U1", "U2"], ["a", "b"]
    for w, x in surveyed(g, "layel"):
        n = x["name"] if x["k"] in ("net", "net_class") else "a"
        look = {"op": "look", "ref": "U1", "net": n, "setup": "s"}
        if x["k"] in ("net", "net_class", "module") or r.random() < 0.2:
            hs.append([UNITS, {"op": "new", "kind": "lay", "doc": dict(EMPTY, el=[x, w])}, look])
        if x["k"] == "net" and abs(int(x["num"])) < 2 ** 31:
            hs.append([UNITS, {"op": "new", "kind": "lay", "doc": EMPTY}, dict(op="add_net", num=int(x["num"]), name=n), look, {"op": "add_net", "num": 3, "name": n}, look])
        if x["k"] == "net_class":
            hs.append([UNITS, {"op": "new", "kind": "lay", "doc": EMPTY}, {"op": "add_netclass", "nc": x}, look, {"op": "add_netclass", "nc": w}])
    for w, x in surveyed(g, "fpel"):
        ref = x["value"] if x["k"] == "fp_text" else "U1"
        m = {"k": "module", "v": alone(x, w)}
        hs.append([UNITS, {"op": "new", "kind": "lay", "doc": dict(EMPTY, el=[m])}, {"op": "look", "ref": ref, "net": "a", "setup": "s"},
                   {"op": "modify_module", "ref": ref, "edit": {"op": "set_reference", "old": ref, "new": "X1"}}, {"op": "look", "ref": "X1", "net": "a", "setup": "s"}])
    for v in ODD_TEXTS:
        old = {"name": "s", "v1": v, "v2": [v]}
        for setup in ([old], [old, dict(old, name=v), old], [dict(old, v2=[]), old], [dict(old, name=v)]):
            for n in ("s", v):
                for new in ("new", v):
                    hs.append([UNITS, {"op": "new", "kind": "lay", "doc": dict(EMPTY, setup=setup, plot=[old])}, {"op": "look", "ref": "U1", "net": v, "setup": n},
                               {"op": "update_setup", "name": n, "v": new}, {"op": "look", "ref": "U1", "net": v, "setup": n}])
    c.record("boards of every item with one part another; settings of every text", "TraceEdit", hs)


# ------------------------------------------------------------------------------- footprint convention

KLC_SIZES = [12800, 6400, 15360, 10240, 19200, 12801, 12799]
KLC_THICK = [1920, 1280, 2560, 1921, 1919]


def klc_footprint(g):
    """footprints near the convention; geometry on quarter millimetres"""
    r = g.r

    def text(which, good):
        ok = r.random() < 0.6
        t = g.text()
        t.update(name=which, value=good if ok or r.random() < 0.4 else r.choice(["REF**", "%R", "x", "", near(r, good), near(r, good)]), hide=r.random() < 0.2)
        t["layer"] = {"s": r.choice(["F", "F", "F", "B", "B", r.choice(SIDES)]), "t": r.choice(["SilkS", "Fab", "Fab", "SilkS", "Cu"])}
        t["effects"].update(sx=r.choice(KLC_SIZES[:2] if ok else KLC_SIZES), sy=r.choice(KLC_SIZES[:2] if ok else KLC_SIZES), thickness=r.choice(KLC_THICK))
        return t
    name = r.choice(["BGA-48", "BGA", "QFN", "R_0603", "xBGA", "BG", "a b", "", "bga-1", "Bga", " BGA", near(r, "BGA-1")])
    el = []
    if r.random() < 0.85:
        el.append(text("reference", "REF**"))
    if r.random() < 0.85:
        el.append(text("value", name))
    if r.random() < 0.6:
        el.append(text("user", "%R"))
    if r.random() < 0.25:
        el.append(text(r.choice(["reference", "value", "user", "Reference", "VALUE", "ref", "user "]), r.choice(["x", "%R", "REF**", name])))
    kinds = r.choice([["smd"], ["thru_hole"], ["smd", "thru_hole"], ["np_thru_hole"], ["smd", "np_thru_hole"], []])
    for _ in range(r.randint(0, 3) if kinds else 0):
        p = g.pad()
        p["t"] = r.choice(kinds)
        el.append(p)
    for _ in range(r.randint(0, 2)):
        p = g.fpitem(r.choice(["fp_line", "fp_poly", "fp_circle", "fp_arc", "attr", "model", "at", "descr", "layer"]))
        if "layer" in p and r.random() < 0.7:
            p["layer"] = {"s": r.choice(["F", "B", r.choice(SIDES)]), "t": "Fab"}
        el.append(p)
    for _ in range(r.choice([0, 0, 1, 3, 4, 4, 5])):
        p = g.fpitem("fp_line")
        p["layer"] = {"s": r.choice(["F", "B", "F", "B", r.choice(SIDES)]), "t": "CrtYd"}
        el.append(p)
    if r.random() < 0.3:
        el.append({"k": "attr", "v": r.choice(["smd", "virtual", "SMD", "smd ", "", "through_hole"])})
    r.shuffle(el)
    return {"name": name, "el": el}


def klc_histories(c, part, n, fix):
    # small things as well as large ones: the clearance depends on the size
    hs = []
    for i in range(n):
        g = c.units("%s/%d" % (part, i), step=3200, quarters=True)
        if i % 2:
            g.snum = lambda r=g.r: 3200 * r.randint(-6, 6)
            g.num = lambda r=g.r: 6400 * r.randint(0, 5)
        cfg = {"font_size": g.r.choice(KLC_SIZES[:5]), "font_thickness": g.r.choice(KLC_THICK[:3])} if g.b(0.5) else {"font_size": 12800, "font_thickness": 1920}
        steps = [UNITS, {"op": "new", "kind": "fp", "doc": klc_footprint(g)}, dict(cfg, op="check")]
        if fix:
            steps += [dict(cfg, op="fix"), dict(cfg, op="check"), dict(cfg, op="fix"), {"op": "get"}]
        hs.append(steps)
    return hs


def klc_survey(c, fix):
    """a footprint that keeps every rule and one that breaks them, each with one part another at a time"""
    g = c.units("survey", step=3200, quarters=True)
    g.snum = lambda: 3200 * g.r.randint(-6, 6)
    g.num = lambda: 6400 * g.r.randint(1, 5)
    f = Full(g.r)
    f.__dict__.update(step=3200, quarters=True, snum=g.snum, num=g.num)
    name = "R_0603"

    def text(which, v, t, good):
        e = {"sx": 12800, "sy": 12800, "thickness": 1920, "italic": False, "justify": "none"}
        return dict(f.text(), name=which, value=v if good else "x" + v, hide=not good, layer={"s": "F", "t": t if good else "Cu"}, effects=e if good else dict(e, sx=6400, sy=15360, thickness=2560))

    def line(t, x1, y1, x2, y2):
        return {"k": "fp_line", "start": {"t": "start", "x": x1, "y": y1}, "end": {"t": "end", "x": x2, "y": y2}, "layer": {"s": "F", "t": t}, "width": 640}
    square = [line("CrtYd", a, b, p, q) for a, b, p, q in ((-38400, -38400, 38400, -38400), (38400, -38400, 38400, 38400), (38400, 38400, -38400, 38400), (-38400, 38400, -38400, -38400))]
    pads = [dict(f.pad(), t="smd", at={"x": x, "y": 0, "rot": 0}, size={"t": "size", "x": 12800, "y": 19200}) for x in (-12800, 12800)]
    whole = []
    for good in (True, False):
        texts = [text("reference", "REF**", "SilkS", good), text("value", name, "Fab", good), text("user", "%R", "Fab", good)]
        whole.append(texts + pads + [{"k": "attr", "v": "smd" if good else "virtual"}, line("Fab", -12800, -6400, 12800, 6400)] + (square if good else square[:3]))
    whole.append([dict(p, t="thru_hole") for p in pads] + [{"k": "at", "x": 3200, "y": -6400, "rot": 0}])
    hs = []
    cfg = {"font_size": 12800, "font_thickness": 1920}
    for w in whole:
        docs = [{"name": n, "el": w} for n in WORDS + ["BGA", "BGA-1", "BGA_", "bga", "xBGA", "BG", "BGA 48"]]
        docs += [{"name": name, "el": w[:i] + el + w[i + 1:]} for i, x in enumerate(w) for _, y in variants(f, x) for el in ([y], [y, x], [x, y])[:3 if i < 3 or x["k"] == "attr" else 1]]
        docs += [{"name": name, "el": el} for i in range(len(w)) for el in (w[:i] + w[i + 1:], w + w[i:i + 1])] + [{"name": name, "el": w[::-1]}, {"name": name, "el": w * 5}]
        for d in docs:
            steps = [UNITS, {"op": "new", "kind": "fp", "doc": d}, dict(cfg, op="check")]
            hs.append(steps + [dict(cfg, op="fix"), dict(cfg, op="check")] if fix else steps)
    return hs


def klc_model(c, h, part):
    c.model(part, "MC_Klc", h, consts(Names={"BGA-1", "R"} if c.tier == "quick" else {"BGA-1", "R", "BG", ""}, Sizes={12800, 15360}, Thicks={1920, 2560}, Level=c.n(1, 2)),
            ["Repairs", "Twice", "Nothing", "OnePerRule", "Informational", "Encloses", "Emit"])


@check("C16")
def c16(c):
    def h(e):
        cfg = {"font_size": e["cfg"]["size"], "font_thickness": e["cfg"]["thickness"]}
        return [([UNITS, {"op": "new", "kind": "fp", "doc": e["doc"]}, dict(cfg, op="check")], ["ok", "ok", e["found"]])]
    klc_model(c, h, "every combination of broken rules of a part")
    c.record("every single change of a good and a bad footprint", "TraceEdit", klc_survey(c, False))
    c.record("random footprints checked", "TraceEdit", klc_histories(c, "klc", c.n(2500, 16000), False))


@check("C17")
def c17(c):
    def h(e):
        cfg = {"font_size": e["cfg"]["size"], "font_thickness": e["cfg"]["thickness"]}
        return [([UNITS, {"op": "new", "kind": "fp", "doc": e["doc"]}, dict(cfg, op="fix"), dict(cfg, op="check"), dict(cfg, op="fix")],
                 ["ok", "ok", e["fixed"], e["left"], e["fixed"]])]
    klc_model(c, h, "every combination of broken rules of a part, fixed twice")
    c.record("every single change of a good and a bad footprint, fixed", "TraceEdit", klc_survey(c, True))
    c.record("random footprints fixed", "TraceEdit", klc_histories(c, "klc", c.n(1500, 12000), True))
