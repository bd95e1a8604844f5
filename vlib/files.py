"""Files: kinds, writing, sheets in other files."""
import os

from . import dictionary
from . import text as T
from .checks import check, consts, pick, sample_texts, texts
from .gen import near
from .lines import comp_edits, cut_lines, line_texts, torn

KINDS = ["fp", "sch", "lay", "lib", "project", "tab"]
FOREIGN = ["", "\n", " ", "x", "()", "(module)", "update=x", "update", "﻿(module m)", "<xml/>", "EESchema Schematic File Version 2\n", "(kicad_pcb)", "(fp_lib_table)",
           "EESchema-LIBRARY Version 2.3\n#encoding utf-8\n#\n#End Library\n", "EESchema-LIBRARY Version 2.4\n#encoding utf-8\n#\n#End Library\n", "# comment\n(module m)",
           "\n(module m)", " (module m)", "(module m) (kicad_pcb)", "(footprint m)", "(module m", "module m", "((module m))", "PCBNEW-LibModule-V1  x\n", "Update=x",
           "[eeschema]\nupdate=1\n", "update=22/04/2015\nversion=1\n", "(fp_lib_table (lib (name a)(type b)(uri c)(options d)(descr e)))",
           "EESchema Schematic File Version 4\nEELAYER 25 0\nEELAYER END\n", "EESchema Schematic File Version 2\nEELAYER 25 0\nEELAYER END\n"] + dictionary.WORDS[:12]
PATHS = [w for w in dictionary.WORDS if "/" not in w and w not in (".", "..") and len(w) < 60][:12]


def read_steps(path, kinds):
    return [{"op": "read", "path": path, "as": "any"}] + [{"op": "read_as", "path": path, "as": k} for k in kinds]


# what a file is called says nothing about what it is
NAMES = ["f", "f", "f", "a.sch", "a.lib", "a.kicad_mod", "a.kicad_pcb", "fp-lib-table", "a.pro", "A.SCH", "x.tar.gz", "ü b.mod", ".sch", "a.dcm", "a-cache.lib",
         "a.kicad_sch", "a.txt", "a.sch~", "a.bak", "module", "a.net", "a.kicad_pcb-bak", "_autosave-a.kicad_pcb"] + [n for w in PATHS for n in (w, "a." + w)]


@check("C09")
def c09(c):
    called = c.rng("names")

    def h(e):
        p = "k/" + called.choice(NAMES)
        steps = [{"op": "wipe", "path": "k"}, {"op": "put", "path": p, "text": e["text"]}, {"op": "read", "path": p, "as": "any"}]
        doc = e["doc"][0] if e["doc"] else "none"
        want = ["ok", {"ok": "ok"}, {"ok": e["kind"], "doc": doc, "shown": e["shown"], "name_ok": True}]
        for k in KINDS:
            steps.append({"op": "read_as", "path": p, "as": k})
            want.append({"ok": doc} if k == e["kind"] else {"err": True})
        return [(steps, want)]
    heads = pick(c, "heads", ["module", "kicad_pcb", "fp_lib_table", "footprint", "Module", "lib", "a"], ["module", "kicad_pcb", "fp_lib_table"], c.n(4, 7))
    firsts = pick(c, "firsts", ["EESchema Schematic File Version 2", "EESchema-LIBRARY Version 2.3", "EESchema Schematic File Version 2 ", "EESchema Schematic File Version 3",
                                "EESchema-LIBRARY Version 2.4", "eeschema", "", "update=", "module m"],
                  ["EESchema Schematic File Version 2", "EESchema-LIBRARY Version 2.3"], c.n(5, 9))
    c.model("documents of every kind and their heads", "MC_Kinds", h,
            consts(Words={"a"}, Nums={"0", "1"}, Leads=pick(c, "leads", ["", " ", "\n", "x ", "\t", "#\n", "()"], ["", " ", "\n"], c.n(4, 7)),
                   Tails=pick(c, "tails", ["", "\n", " x", ")", "update=", "\n(module b)"], ["", "\n"], c.n(3, 6)), Heads=heads, FirstLines=firsts),
            ["AtMostOne", "OwnKind", "Emit"])
    r = c.rng("files")
    base = {k: texts(c, k, 25, "kinds " + k, 2 if k != "tab" else None) for k in ("fp", "lay", "tab")}
    for k in ("sch", "lib"):
        base[k] = line_texts(c, k, 25, "kinds " + k, 2) + [cut_lines(s, k, r, 2) for s in sample_texts(k) for _ in range(5)]
    g = c.gen("project")
    base["project"] = ["update=%s\n" % g.word() + "".join("%s=%s\n" % (g.word(), g.word()) for _ in range(r.randint(0, 4))) for _ in range(20)]
    hs = []
    for i in range(c.n(900, 7000)):
        k = r.random()
        if k < 0.15:
            t = r.choice(FOREIGN)
        else:
            kd = r.choice(KINDS)
            t = r.choice(base[kd])
            if k > 0.6:
                t = torn(t, r) if kd in ("sch", "lib", "project") else T.mutate_text(T.mutate_tree(t, r), r) if r.random() < 0.5 else T.mutate_text(t, r)
            elif k > 0.5:
                other = r.choice(KINDS)
                a, b = t.split("\n", 1) if "\n" in t else (t, ""), r.choice(base[other]).split("\n", 1)
                t = "\n".join([b[0]] + list(a[1:]))
        kinds = list(KINDS)
        r.shuffle(kinds)
        p = "k/" + r.choice(NAMES)
        if r.random() < 0.05:
            t = r.choice(["\ufeff", "\ufeff\n", "\x00"]) + t
        steps = [{"op": "wipe", "path": "k"}, {"op": "put", "path": p, "text": t}] + read_steps(p, kinds)
        steps.append({"op": "read", "path": p, "as": r.choice(KINDS)})
        if r.random() < 0.2:
            miss = r.choice(["k/none", "k/none.sch", "k", p + "/x", "k/bytes"])
            if miss == "k/bytes":
                steps.append({"op": "putbytes", "path": "k/bytes", "bytes": [r.choice([0xff, 0xfe, 0xc0])] + [r.randint(0, 255) for _ in range(5)]})
            steps += read_steps(miss, r.sample(KINDS, 2))
        hs.append(steps)
    c.record("files of all kinds, damaged and foreign", "TraceFiles", hs)
    hs = []
    for t in FOREIGN + [min(base[k], key=len) for k in KINDS]:
        for p in ["k/f"] if t in FOREIGN else sorted(set("k/" + n for n in NAMES)):
            hs.append([{"op": "wipe", "path": "k"}, {"op": "put", "path": p, "text": t}] + read_steps(p, KINDS) + [{"op": "read", "path": p, "as": k} for k in KINDS])
    c.record("every short file expected to be every kind, under every name", "TraceFiles", hs)


PLACES = ["w/a", "w/b", "w/s/c", "w/no/d", "w/dir", "w/full"]


def has_full(c):
    return c.harness([[{"op": "full", "path": "f"}]])[0][0] == "ok"


def places(full):
    s = [{"op": "wipe", "path": "w"}, {"op": "mkdir", "path": "w/s"}, {"op": "mkdir", "path": "w/dir"}]
    return s + ([{"op": "full", "path": "w/full"}] if full else [])


@check("C20")
def c20(c):
    full = has_full(c)
    if not full:
        c.assumptions.append("no device without room on this system: failing writes are those to missing directories and to directories")

    def h(e):
        steps = places(full)
        want = ["ok"] * len(steps)
        for w in e["past"]:
            f = w["what"]
            if f["k"] == "doc":
                steps += [{"op": "new", "kind": f["kind"], "doc": f["doc"]}, {"op": "write", "path": w["path"]}]
                want.append("ok")
            else:
                steps.append({"op": "write_text", "path": w["path"], "text": f["text"]})
            want.append({"ok": "ok"} if w["ok"] else {"err": True})
        for p, x in sorted(e["held"].items()):
            got = {"ok": x["text"][0]} if x["text"] else {"err": True}
            steps += [{"op": "raw", "path": p}, {"op": "read_text", "path": p}]
            want += [got, got]
            for k in ("fp", "lay"):
                if x[k]:
                    steps.append({"op": "read_as", "path": p, "as": k})
                    want.append({"ok": x[k][0]})
        return [(steps, want)]
    pl = set(PLACES if full else PLACES[:-1])
    c.model("all short histories of writes", "MC_Writes", h,
            consts(Words={"a"}, Nums={"0", "1"}, MaxWrites=c.n(2, 3), Texts=["", "x", "é\n"],
                   Places=pl), ["HoldsLast", "Truthful", "Emit"], thin=c.n(None, 12000))
    g = c.gen("writes")
    r = g.r

    def some_text():
        return r.choice(["", "x", "\n", "line\nline\n", "é日\t", "z" * r.choice([10, 4095, 4096, 4097, 5000, 9000]), "é" * r.choice([100, 2048, 5000]), g.word(), "a\r\nb\r\n", "\r", "x\x00",
                         "\x00", "\ufeffx", " x ", "x\n\n", "\tx", "z" * r.choice([8191, 8192, 8193, 16400, 70000]), "$1 {} %s \\n", "(a\n  (b))\n"])
    hs = []
    for _ in range(c.n(400, 3500)):
        steps = places(full)
        where = r.sample(PLACES[:3], r.randint(1, 3))
        if r.random() < 0.3:
            where.append(r.choice(PLACES[3:] if full else PLACES[3:5]))
        for _ in range(r.randint(1, 7)):
            p = r.choice(where)
            k = r.random()
            if k < 0.35:
                steps += [{"op": "new", "kind": "fp", "doc": g.footprint(r.choice([0, 1, 2, 6]))}, {"op": "write", "path": p}]
            elif k < 0.6:
                steps += [{"op": "new", "kind": "lay", "doc": g.board(r.choice([0, 1, 2]))}, {"op": "write", "path": p}]
            elif k < 0.85:
                steps.append({"op": "write_text", "path": p, "text": some_text()})
            elif k < 0.9:
                steps.append({"op": "wipe", "path": p})
            else:
                steps.append({"op": "write", "path": p} if any(s["op"] == "new" for s in steps) else {"op": "write_text", "path": p, "text": "q"})
            q = r.choice(where)
            if q != "w/full" and r.random() < 0.4:
                steps.append({"op": r.choice(["raw", "read_text"]), "path": q})
        for p in where:
            if p != "w/full":
                steps += [{"op": "raw", "path": p}, {"op": "read", "path": p, "as": "any"}]
        hs.append(steps)
    c.record("random histories of writes", "TraceFiles", hs)
    hs = []
    some = {"fp": [dict(g.footprint(2), name=n) for n in ("a", "b")], "lay": [dict(g.board(2), page=n) for n in ("A3", "A4")]}
    some = {k: [dict(d[0]), dict(d[0], **{x: d[1][x] for x in ("name", "page") if x in d[1]}), g.doc(k), dict(g.doc(k), el=[])] for k, d in some.items()}
    before = dictionary.WORDS[:4] + ["z" * n for n in dictionary.LENGTHS[:4]] + ["", "x", "\n", "z" * 9000, "é" * 3000, "(module a)", "(kicad_pcb)", "update="]
    for k, ds in some.items():
        for p in sorted(set(NAMES)):
            n = len(hs)
            for d in ds[:3]:
                hs.append([{"op": "wipe", "path": "w"}, {"op": "mkdir", "path": "w"}, {"op": "put", "path": "w/" + p, "text": before[len(hs) % len(before)]},
                           {"op": "new", "kind": k, "doc": d}, {"op": "write", "path": "w/" + p}, {"op": "raw", "path": "w/" + p}, {"op": "read_as", "path": "w/" + p, "as": k}])
            for a in ds:
                # another of the same length, the same again, a longer one, a shorter one
                for b in ds:
                    hs.append([{"op": "wipe", "path": "w"}, {"op": "mkdir", "path": "w"}, {"op": "new", "kind": k, "doc": a}, {"op": "write", "path": "w/" + p},
                               {"op": "new", "kind": k, "doc": b}, {"op": "write", "path": "w/" + p}, {"op": "raw", "path": "w/" + p}])
            hs[n:] = r.sample(hs[n:], 8) if p != "f" else hs[n:]
    for a in before + ["ab", "cd", "ab\n", "cd\n", "y" * 9000]:
        for b in before + ["ab", "cd", "ab\n", "cd\n", "y" * 9000]:
            hs.append([{"op": "wipe", "path": "w"}, {"op": "mkdir", "path": "w"}, {"op": "write_text", "path": "w/f", "text": a}, {"op": "write_text", "path": "w/f", "text": b},
                       {"op": "raw", "path": "w/f"}, {"op": "read_text", "path": "w/f"}])
    c.record("a file written over another, under every name", "TraceFiles", hs)


# --------------------------------------------------------------------------- hierarchies
def hierarchy(g):
    """files of a random hierarchy without cycles: {path: schematic}"""
    r = g.r
    n = r.randint(1, 6)
    dirs = ["", "", "s/", "s/t/", "u v/"]
    names = []
    for i in range(n):
        d = "h/" if i == 0 else "h/" + r.choice(dirs)
        names.append(d + r.choice(["a", "b", "c d", "é", " a", "a.b", "A", "-x", "~", ".a", "$x", "#x", "%20", "a%b", "a  b", "(a)", "'a'"] + PATHS) + str(i)
                     + r.choice([".sch", ".sch", ".sch", ".sch ", ".SCH", "", ".kicad_sch", ".txt", ".", " "]))
    refs = r.sample(["R1", "R2", "C1", "U?", "#PWR01", "#FLG01", "r1", "R10", "R", "/R1", "J1", "TP1", "#", "R1A", "1R", "~R1", "H1", "FID1"] + dictionary.TOKENS, 5)
    docs = {}
    for i, p in enumerate(names):
        d = g.schematic(3)
        d["libs"], d["sheets"] = [], []
        d["el"] = [e for e in d["el"] if e["k"] in ("comp", "wire", "conn")]
        for e in d["el"]:
            if e["k"] == "comp":
                e["ref"] = r.choice(refs)
                e["fields"] = e["fields"][:2]
        own = p.rsplit("/", 1)[0] + "/"
        for q in names[i + 1:]:
            if q.startswith(own):
                how = q[len(own):]
            elif r.random() < 0.3:
                # a place beside or above
                how = os.path.relpath(q.rsplit("/", 1)[0], own) + "/" + q.rsplit("/", 1)[1]
            else:
                continue
            if r.random() < 0.1:
                how = r.choice(["./", ".//", "s/../", "x/../", "s/./../", "../" + own.rsplit("/", 2)[1] + "/"]) + how
            for _ in range(r.choice([0, 1, 1, 2])):
                d["sheets"].append(dict(g.sheet(), filename=how, labels=[]))
        r.shuffle(d["sheets"])
        docs[p] = d
    return names, docs, refs


def random_hierarchies(c, n):
    g = c.lines("hierarchies")
    r = g.r
    made = [hierarchy(g) for _ in range(n)]
    flat = [(i, p, d) for i, (names, docs, refs) in enumerate(made) for p, d in docs.items()]
    outs = c.harness([[{"op": "new", "kind": "sch", "doc": d}, {"op": "ser", "indent": 0}] for _, _, d in flat])
    text = {(i, p): "\n".join(o[1]["ok"]) for (i, p, _), o in zip(flat, outs)
            if len(o) > 1 and isinstance(o[1], dict) and "ok" in o[1]}
    hs = []
    for i, (names, docs, refs) in enumerate(made):
        steps = [{"op": "wipe", "path": "h"}]
        bad = r.choice(names) if r.random() < 0.25 else None
        for p in names:
            t = text.get((i, p), "")
            if p == bad:
                k = r.random()
                if k < 0.3:
                    continue
                t = torn(t, r) if k < 0.7 else "x"
            steps.append({"op": "put", "path": p, "text": t})
        top = names[0]
        if r.random() < 0.8:
            steps.append({"op": "load", "kind": "sch", "path": top} if r.random() < 0.5 else {"op": "read_as", "as": "sch", "path": top, "load": True})
            if bad == top:
                hs.append(steps)
                continue
        else:
            steps.append({"op": "new", "kind": "sch", "doc": docs[top]})
            if r.random() < 0.6:
                steps.append({"op": "set_filename", "path": [top]})
        steps += [{"op": "components"}, {"op": "all_components"}]
        for ref in r.sample(refs, 3) + [near(r, r.choice(refs)), "none"]:
            steps.append({"op": "by_reference", "ref": ref})
        for k in range(len(docs[top]["sheets"])):
            if r.random() < 0.3:
                steps += [{"op": "sheet_file", "i": k}, {"op": "sheet_doc", "i": k}]
        for _ in range(r.choice([0, 1, 2])):
            e = comp_edits(g, ["MPN", "Value", "New"])
            steps.append({"op": "modify_component", "ref": r.choice(refs), "edit": e} if r.random() < 0.7 else {"op": "modify_components", "edit": e})
        steps += [{"op": "all_components"}, {"op": "get"}]
        hs.append(steps)
    return hs


@check("C15")
def c15(c):
    def h(e):
        steps, want = [{"op": "wipe", "path": "p"}], ["ok"]
        for p in e["decoys"]:
            steps.append({"op": "put", "path": p, "text": e["decoy"]})
            want.append({"ok": "ok"})
        for f in e["files"]:
            if f["how"] == "gone":
                continue
            if f["how"] == "dir":
                steps.append({"op": "mkdir", "path": f["path"]})
                want.append("ok")
                continue
            t = f["text"]
            steps.append({"op": "put", "path": f["path"], "text": t[:t.index("$EndDescr")] if f["how"] == "cut" else t})
            want.append({"ok": "ok"})
        steps += [{"op": "load", "kind": "sch", "path": "p/top.sch"}, {"op": "all_components"}]
        want += [{"ok": e["top"]}, e["all"]]
        for ref, out in sorted(e["find"].items()):
            steps.append({"op": "by_reference", "ref": ref})
            want.append(out)
        return [(steps, want)]
    r = c.rng("shapes")
    lists = [[], ["R1"], ["R2", "R1"], ["R1", "R1"], ["R2"]]
    tops = [[], ["a.sch"], ["s/b.sch"], ["a.sch", "s/b.sch"], ["s/b.sch", "a.sch"], ["a.sch", "a.sch"], ["s/b.sch", "a.sch", "s/b.sch"], ["s/c.sch", "a.sch"]]
    mids = [[], ["s/b.sch"], ["s/c.sch", "s/b.sch"], ["s/b.sch", "s/b.sch"]]
    few = lambda xs, must, n: must + r.sample([x for x in xs if x not in must], n - len(must))
    c.model("hierarchies of four files", "MC_Sheets", h,
            consts(Texts={"a"}, Names={"R"}, Ints={"0"}, Floats={"0.5"},
                   Lists=frozenset(map(tuple, few(lists, [["R1"], ["R2", "R1"]], c.n(2, 3)))),
                   Tops=frozenset(map(tuple, few(tops, [["a.sch", "s/b.sch"]], c.n(5, 7)))),
                   Mids=frozenset(map(tuple, few(mids, [["s/b.sch"]], c.n(2, 4))))),
            ["FindIsFirst", "OwnFirst", "NeverDecoy", "Counted", "OkIff", "Emit"], thin=c.n(2500, 15000))
    c.record("random hierarchies", "TraceFiles", random_hierarchies(c, c.n(300, 2500)))
