"""Random documents and texts. Nothing here decides anything: generators only choose inputs."""
import copy
import json
import string

from . import dictionary

SIDES = ["F", "B", "Dwgs", "Cmts", "Eco1", "Eco2", "Edge", "In1", "In2", "*", ""]
LTYPES = ["Cu", "Paste", "Mask", "SilkS", "User", "Adhes", "Cuts", "CrtYd", "Fab", "Margin"]

# words without double quote, backslash, line break or control character
WORDS = [
    "a", "REF**", "U1", "R10", "smd", "hide", "locked", "italic", "yes", "mirror", "at", "module", "net",
    "1", "-1.50", "007", "0x1F", "1e3", "+5", "Net-(R1-Pad2)", "/block/sig", "GND", "+3.3V", "~", "~RESET",
    "two words", "a\tb", "\t", " lead", "trail ", "a  b", "(par)", "x(y", "x)y", "{brace}", "50%", "%R", "", "#hash", ";semi",
    "it's", "a,b", "a;b", "a=b", "$VAR", "${KISYS3DMOD}/x.wrl", "µΩ", "日本", "é", "*", "F.Cu", "a.b.c", "-", "--", "0",
    "a/b/c", "100nF", "C_0603", "@", "^", "&amp;", "<tag>", "[x]", "|", "`", "!", "?", "end", "None", "null", "nan0", "none", "reference", "value", "user", "%V", "VAL**", "thermal", "fillet", "Default", "*.Cu", "Value",
] + dictionary.WORDS
NAMES = ["GND", "VCC", "+3.3V", "/a/b", "/a/c", "/b/a", "Net-(R1-Pad1)", "N-000123", "sig", "sig 2", "", "SDA%", "(x)", "No Net", "Net-(U1-Pad1)"] + dictionary.WORDS
LAYER_WORDS = [w for w in dictionary.WORDS if "." not in w and "*" not in w and w not in LTYPES]


class G:
    zero = "0"

    def __init__(self, rng):
        self.r = rng

    # ------------------------------------------------------------------------------ words, numbers
    def word(self):
        r = self.r
        k = r.random()
        if k < 0.03:
            return ""
        if k < 0.2 and dictionary.WORDS:
            return r.choice(dictionary.WORDS)
        if k < 0.28:
            return r.choice(dictionary.KNOWN)
        if k < 0.7:
            return r.choice(WORDS)
        n = r.randint(1, 12) if k < 0.98 else r.choice([40, 64, 65, 100, 129, 257, 300])
        al = string.ascii_letters + string.digits + " _-+./()%{}*#~'=,;:<>[]@!?|^&$" + "éΩ"
        return "".join(r.choice(al) for _ in range(n))

    def name(self):
        return self.r.choice(NAMES) if self.r.random() < 0.8 else self.word()

    def netref(self):
        return {"num": "0", "name": ""} if self.r.random() < 0.12 else {"num": self.integer(), "name": self.name()}

    def anynum(self):
        """a size, now and then below zero where the format does not care"""
        return self.snum() if self.r.random() < 0.1 else self.num()

    def num(self):
        """a decimal number in canonical spelling"""
        r = self.r
        k = r.random()
        if k < 0.1 and dictionary.POSITIVE:
            return r.choice(dictionary.POSITIVE)
        if k < 0.2:
            return r.choice(["0", "1", "0.5", "0.15", "2.54", "1.27", "90", "45", "0.1", "10", "360", "0.000001",
                             "123456.789", "0.30000000000000004", "1234567890123", "25.4", "100", "3.1415926535", "1000", "1024", "32768",
                             "65536", "2147483648", "4294967297", "99999", "1000000", "0.0000001", "0.00001", "0.123456789",
                             "1.0000001", "999.9999999", "16777217", "33554433.5", "9007199254740992"])
        if k < 0.4:
            return str(r.randint(0, 300))
        d = r.randint(1, 6)
        frac = "%0*d" % (d, r.randint(0, 10 ** d - 1))
        frac = frac.rstrip("0")
        i = str(r.randint(0, 250))
        return i + ("." + frac if frac else "")

    def snum(self):
        n = self.num()
        return "-" + n if n != "0" and self.r.random() < 0.5 else n

    def integer(self, neg=True):
        r = self.r
        v = r.choice([0, 1, 2, 3, 7, 10, 12, 99, 100, 255, 256, 4096, 32768, 65536, 20171130, 2147483647, 2147483648, 4294967296,
                      9007199254740993, 9223372036854775807])
        if dictionary.INTS and r.random() < 0.2:
            v = abs(r.choice(dictionary.INTS))
        if neg and v and r.random() < 0.15:
            v = -v
        return str(v)

    def stamp(self):
        return "%X" % self.r.choice([0, 1, 0x5A, 0x55A0DB7E, 0xFFFFFFFF, self.r.getrandbits(32)])

    def b(self, p=0.5):
        return self.r.random() < p

    def o(self, f, p=0.5):
        return [f()] if self.r.random() < p else []

    def some(self, f, lo, hi):
        return [f() for _ in range(self.r.randint(lo, hi))]

    # ---------------------------------------------------------------------------------- footprints
    def layer(self):
        r = self.r
        if r.random() < 0.85:
            s = r.choice(["F", "F", "F", "B", "B"] + SIDES)
            t = r.choice(LTYPES)
            return {"s": s, "t": t}
        t = "~" + r.choice(["Eco", "GND plane", "Foo", "Top", "x(y)", "Layer-3"] + LAYER_WORDS)
        s = r.choice(["F", "B", "In1", "", ""])
        if s == "" and r.random() < 0.3:
            t = "~a.b.c"
        return {"s": s, "t": t}

    def xy(self, t, f=None):
        f = f or self.snum
        return {"t": t, "x": f(), "y": f()}

    def pts(self, hi=12):
        r = self.r
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11, hi])
        return [self.xy("xy") for _ in range(n)]

    def at(self):
        return {"x": self.snum(), "y": self.snum(), "rot": self.angle()}

    def angle(self):
        return self.r.choice(["0", "0", "90", "180", "-90", self.snum()])

    def xyz(self):
        return {"x": self.snum(), "y": self.snum(), "z": self.snum()}

    def effects(self):
        z = self.b(0.15)
        return {"sx": self.zero if z else self.num(), "sy": self.zero if z else self.num(), "thickness": self.num(),
                "italic": self.b(0.3), "justify": self.r.choice(["none", "none", "mirror", "left", "right"])}

    def circle(self):
        return {"center": self.xy("center"), "end": self.xy("end")}

    def text(self):
        return {"k": "fp_text", "name": self.r.choice(["reference", "value", "user", self.word()]), "value": self.word(),
                "at": self.at(), "layer": self.layer(), "effects": self.effects(), "hide": self.b(0.3)}

    def drill(self):
        w = self.num()
        h = w if self.b() else self.num()
        z = self.b(0.6)
        return {"shape": self.o(lambda: "oval", 0.4), "width": w, "height": h,
                "ox": self.zero if z else self.snum(), "oy": self.zero if z else self.snum()}

    def pad(self):
        r = self.r
        return {"k": "pad", "name": r.choice(["1", "2", "A1", "", self.word()]),
                "t": r.choice(["smd", "thru_hole", "np_thru_hole"]),
                "shape": r.choice(["rect", "circle", "oval", "trapezoid"]),
                "at": self.at(), "size": self.xy("size", self.num),
                "rect_delta": self.o(lambda: self.xy("rect_delta"), 0.2), "drill": self.o(self.drill, 0.4),
                "layers": self.some(self.layer, 0, 4),
                "net": self.o(self.netref, 0.4),
                "zone_connect": self.o(self.integer, 0.25), "spm": self.o(self.snum, 0.2), "smm": self.o(self.snum, 0.2),
                "clearance": self.o(self.num, 0.2), "thermal_gap": self.o(self.num, 0.2)}

    def fpitem(self, k=None):
        r = self.r
        k = k or r.choice(["fp_text"] * 3 + ["pad"] * 4 + ["fp_line"] * 3 + ["fp_poly"] * 2 + ["fp_circle", "fp_arc", "model",
                          "solder_mask_margin", "clearance", "layer", "descr", "tags", "attr", "path", "tedit", "tstamp",
                          "locked", "at"])
        if k == "fp_text":
            return self.text()
        if k == "pad":
            return self.pad()
        e = {"k": k}
        if k == "fp_line":
            e.update(start=self.xy("start"), end=self.xy("end"), layer=self.layer(), width=self.anynum())
        elif k == "fp_poly":
            e.update(pts=self.pts(), layer=self.layer(), width=self.anynum())
        elif k == "fp_circle":
            e.update(self.circle(), layer=self.layer(), width=self.anynum())
        elif k == "fp_arc":
            e.update(start=self.xy("start"), end=self.xy("end"), angle=self.snum(), layer=self.layer(), width=self.anynum())
        elif k == "model":
            e.update(name=self.word(), at=self.xyz(), scale=self.xyz(), rotate=self.xyz())
        elif k in ("solder_mask_margin", "clearance"):
            e["v"] = self.snum()
        elif k == "layer":
            e["v"] = self.layer()
        elif k == "attr":
            e["v"] = r.choice(["smd", "virtual", self.word()])
        elif k in ("descr", "tags", "path"):
            e["v"] = self.word()
        elif k in ("tedit", "tstamp"):
            e["v"] = self.stamp()
        elif k == "at":
            e.update(self.at())
        return e

    def footprint(self, hi=8):
        return {"name": self.word(), "el": self.some(self.fpitem, 0, hi)}

    # -------------------------------------------------------------------------------------- boards
    def sexp(self, depth=3, name=None):
        """an unknown section: a named list"""
        r = self.r
        n = r.randint(0, 4)
        els = [{"a": name or r.choice(["title_block", "date", "foo", "my section", "pts", "xy", "polygon", "model",
                                       "at", "effects", "pad", "fp_text", "gr_text", "general", "net_class", "zone",
                                       "pcbplotparams", "layers", "dimension", "feature1", "fill", "module"] + dictionary.TOKENS)}]
        for _ in range(n):
            if depth > 0 and r.random() < 0.6:
                els.append(self.sexp(depth - 1))
            else:
                els.append({"a": self.word()})
        return {"l": els}

    def unknown(self):
        return self.sexp(name=self.r.choice(["title_block", "target", "my_section", "embedded", "x y", "drawings", "pts"] + dictionary.TOKENS))

    def setting(self):
        r = self.r
        n = r.choice(["last_trace_width", "via_size", "pad_size", "grid_origin", "visible_elements", "a b", "hpglpennumber"] + dictionary.WORDS)
        return {"name": n, "v1": r.choice([str(self.num()), self.word()]), "v2": self.o(lambda: r.choice([str(self.num()), self.word()]), 0.3)}

    def ts(self):
        return self.o(self.stamp, 0.4)

    def netclass(self):
        return {"k": "net_class", "name": self.word(), "desc": self.word(), "clearance": self.anynum(), "trace_width": self.anynum(),
                "via_dia": self.anynum(), "via_drill": self.anynum(), "uvia_dia": self.anynum(), "uvia_drill": self.anynum(),
                "diff_pair_gap": self.o(self.num, 0.4), "diff_pair_width": self.o(self.num, 0.4),
                "nets": self.some(self.name, 0, 5)}

    def grtext(self):
        return {"k": "gr_text", "value": self.word(), "at": self.at(), "layer": self.layer(), "effects": self.effects(),
                "tstamp": self.ts()}

    def zone(self):
        r = self.r
        return {"k": "zone", "net": self.integer(), "net_name": self.name(), "layer": self.layer(), "tstamp": self.stamp(),
                "hatch": {"style": r.choice(["edge", "full", "none", "a b"]), "pitch": self.anynum()},
                "priority": r.choice(["0", "0", "1", "7", "100"]),
                "connect_pads": {"connection": self.o(lambda: r.choice(["yes", "no", "thru_hole_only"]), 0.4), "clearance": self.anynum()},
                "min_thickness": self.anynum(),
                "keepout": self.o(lambda: {"tracks": self.b(), "vias": self.b(), "copperpour": self.b()}, 0.4),
                "fill": {"filled": self.b(), "segment": self.b(0.3), "arc_segments": self.integer(False), "thermal_gap": self.anynum(),
                         "thermal_bridge_width": self.anynum(), "smoothing": self.o(lambda: r.choice(["chamfer", "fillet", "x y"]), 0.4),
                         "corner_radius": r.choice([self.zero, self.num()])},
                "polygons": self.some(self.pts, 0, 2), "filled_polygons": self.some(self.pts, 0, 2),
                "fill_segments": self.o(self.pts, 0.3), "other": self.some(lambda: self.sexp(1, "extra"), 0, 3)}

    def layitem(self, k=None):
        r = self.r
        k = k or r.choice(["module", "net", "net", "net_class", "gr_text", "gr_line", "gr_arc", "gr_circle", "dimension",
                           "segment", "segment", "via", "zone", "other"])
        if k == "module":
            return {"k": k, "v": self.footprint(5)}
        if k == "net":
            return dict({"k": k}, **self.netref())
        if k == "net_class":
            return self.netclass()
        if k == "gr_text":
            return self.grtext()
        if k in ("gr_line", "gr_arc"):
            return {"k": k, "start": self.xy("start"), "end": self.xy("end"), "angle": self.snum(), "layer": self.layer(),
                    "width": self.anynum(), "tstamp": self.ts()}
        if k == "gr_circle":
            return {"k": k, "layer": self.layer(), "width": self.anynum(), **self.circle(),
                    "tstamp": self.ts()}
        if k == "dimension":
            e = {"k": k, "name": self.word(), "width": self.anynum(), "layer": self.layer(), "tstamp": self.ts(), "text": self.grtext()}
            for p in ("feature1", "feature2", "crossbar", "arrow1a", "arrow1b", "arrow2a", "arrow2b"):
                e[p] = [self.xy("xy") for _ in range(r.choice([2, 2, 2, 0, 1, 6]))]
            return e
        if k == "segment":
            return {"k": k, "start": self.xy("start"), "end": self.xy("end"), "width": self.anynum(), "layer": self.layer(),
                    "net": self.integer(), "tstamp": self.ts(), "status": self.o(lambda: r.choice(["400000", "a b"]), 0.3)}
        if k == "via":
            return {"k": k, "blind": self.b(0.3), "micro": self.b(0.3), "at": self.at(), "size": self.anynum(),
                    "drill": r.choice([self.zero, self.num()]), "layers": self.some(self.layer, 0, 3), "net": self.integer()}
        if k == "zone":
            return self.zone()
        return {"k": "other", "v": self.unknown()}

    def board(self, hi=8):
        r = self.r
        return {"version": self.integer(), "host": {"tool": self.word(), "build": self.word()},
                "general": dict([(f, self.integer()) for f in ("links", "no_connects", "drawings", "tracks", "zones", "modules", "nets")]
                                + [("area", {"x1": self.snum(), "y1": self.snum(), "x2": self.snum(), "y2": self.snum()}),
                                   ("thickness", self.num())]),
                "page": self.word(), "setup": self.some(self.setting, 0, 5), "plot": self.some(self.setting, 0, 4),
                "layers": [{"num": self.integer(), "layer": self.layer(), "type": r.choice(["signal", "power", "mixed", "jumper", "user"]),
                            "hide": self.b(0.3)} for _ in range(r.randint(0, 5))],
                "el": self.some(self.layitem, 0, hi)}

    def table(self):
        r = self.r
        return [{"name": self.word(), "type": r.choice(["KiCad", "Github", self.word()]),
                 "uri": r.choice(["${KIGITHUB}/Resistors.pretty", "/a b/c", self.word()]),
                 "options": self.word(), "descr": self.word()} for _ in range(r.randint(0, 5))]

    def doc(self, kind):
        return {"fp": self.footprint, "lay": self.board, "tab": self.table}[kind]()


UNIT = 12800            # one millimetre or degree
QUARTER = 90 * UNIT


class GU(G):
    """documents whose numbers are whole units: geometry can be calculated exactly"""
    zero = 0
    step = 640
    quarters = False     # pads and texts at quarter turns only
    nets = None          # net names to choose from
    refs = None          # references to choose from

    def anynum(self):
        return self.num()

    def num(self):
        """a size: an even number of steps"""
        r = self.r
        fresh = [u for u in dictionary.UNITS if u >= 0 and u % (2 * self.step) == 0]
        if fresh and r.random() < 0.15:
            return r.choice(fresh)
        return 2 * self.step * r.choice([0, 1, 2, 5, 10, r.randint(0, 40), r.randint(0, 400), 1600])

    def snum(self):
        r = self.r
        fresh = [u for u in dictionary.UNITS if u % self.step == 0]
        if fresh and r.random() < 0.15:
            return r.choice(fresh)
        return self.step * r.choice([0, 1, -1, 20, -20, 200, r.randint(-60, 60), r.randint(-2000, 2000), -3200, 3200])

    def angle(self):
        r = self.r
        if self.quarters or r.random() < 0.6:
            return QUARTER * r.choice([0, 0, 0, 1, 2, 3, -1, -2, -3, 4, 5, 7, -5, 9])
        return r.choice([45, 30, -45, 359, 1, 400, -359, -400, 725, 89, 91] + [a for a in dictionary.INTS if abs(a) < 4000]) * UNIT if r.random() < 0.7 else 640 * r.randint(-9000, 9000)

    def circle(self):
        r = self.r
        c = self.xy("center")
        a, b = r.choice([(0, 1), (1, 0), (3, 4), (4, 3), (5, 12), (12, 5), (8, 15), (0, 0)])
        k = self.step * r.choice([1, 2, 5, 20, 33, 100])
        return {"center": c, "end": {"t": "end", "x": c["x"] + a * k * r.choice([1, -1]), "y": c["y"] + b * k * r.choice([1, -1])}}

    def name(self):
        return self.r.choice(self.nets) if self.nets else G.name(self)

    def text(self):
        t = G.text(self)
        if self.refs and (t["name"] == "reference" or self.r.random() < 0.4):
            t["value"] = self.r.choice(self.refs)
        if self.refs and t["name"] not in ("reference", "value", "user") and self.r.random() < 0.3:
            t["name"] = near(self.r, self.r.choice(["reference", "value", "user"]))
        return t


# ----------------------------------------------------------------------------- every single change

class Full(GU):
    """items in which every part is there"""
    def o(self, f, p=0.5):
        return [f()]

    def some(self, f, lo, hi):
        return [f(), f()]

    def pts(self, hi=12):
        return [self.xy("xy") for _ in range(3)]


FP_KINDS = ["fp_text", "pad", "fp_line", "fp_poly", "fp_circle", "fp_arc", "model", "solder_mask_margin", "clearance", "layer", "descr", "tags", "attr", "path", "tedit", "tstamp", "locked", "at"]
LAY_KINDS = ["module", "net", "net_class", "gr_text", "gr_line", "gr_arc", "gr_circle", "dimension", "segment", "via", "zone", "other"]
ANGLES = [0, 1, 30, 45, 89, 90, 91, 135, 179, 180, 181, 225, 270, 300, 315, 359, 360, 361, 405, 450, 540, 720, 1080, 3600] \
    + [a for a in dictionary.INTS if 0 < a < 4000]
WIDTHS = [0, 640, 1280, 1920, 2560, 3200, 6400, 12800, 19200, 25600, 51200, 128000, 1280000, 12800000, 128000000] + [u for u in dictionary.UNITS if u > 0]
POINTS = WIDTHS + [-w for w in WIDTHS if w]
LAYERS = [{"s": s, "t": t} for s in SIDES for t in ("Cu", "Fab")] + [{"s": s, "t": t} for s in ("F", "B", "") for t in LTYPES] \
    + [{"s": s, "t": "~" + t} for s in ("F", "B", "In1", "") for t in ("Eco", "Top", "Fob", "GND plane", "x(y)")] + [{"s": "", "t": "~a.b.c"}] \
    + [{"s": s, "t": "~" + w} for s in ("F", "B", "In1", "") for w in LAYER_WORDS]
LAYERS = [l for i, l in enumerate(LAYERS) if l not in LAYERS[:i]]
INTEGERS = ["0", "1", "2", "3", "7", "10", "100", "255", "256", "32768", "65536", "2147483647", "2147483648", "4294967296", "9223372036854775807", "-1", "-2", "-100"] + [str(n) for n in dictionary.INTS]
STAMPS = ["0", "1", "5A", "7FFFFFFF", "80000000", "FFFFFFFF", "10000000", "55A0DB7E"]


def values_of(g, key, v, under):
    """what a part may be instead, or None when it is not one value"""
    if isinstance(v, bool):
        return [False, True]
    if isinstance(v, dict) and set(v) == {"s", "t"}:
        return LAYERS
    if isinstance(v, int):
        if key in ("rot", "angle"):
            a = ANGLES + [-x for x in ANGLES if x]
            return [x * UNIT for x in a if x % 90 == 0 or not g.quarters] + ([] if g.quarters else [x * 640 for x in (1, 5, 247, 450, 675, -1, -247, 3599, 7199)])
        if key in ("sx", "sy", "thickness"):
            return WIDTHS + [12801, 12799, 15360, 1921, 1919]
        return [x for x in POINTS if x % g.step == 0] if key in ("x", "y", "x1", "y1", "x2", "y2", "ox", "oy", "v", "z", "spm", "smm") and under != "size" else [x for x in WIDTHS if x % (2 * g.step) == 0]
    if isinstance(v, str):
        if key == "t":
            return ["smd", "thru_hole", "np_thru_hole"] if v in ("smd", "thru_hole", "np_thru_hole") else None
        if key == "shape":
            return ["oval"] if under == "drill" else ["rect", "circle", "oval", "trapezoid"]
        if key == "justify":
            return ["none", "mirror", "left", "right"]
        if key in ("k", "a"):
            return None
        if key in ("tstamp", "tedit") or under in ("tstamp", "tedit"):
            return STAMPS
        if key == "priority":
            return ["0", "1", "7", "100"] + [str(n) for n in dictionary.INTS if n >= 0]
        if key == "arc_segments":
            return [n for n in INTEGERS if n[0] != "-"]
        if key in ("num", "net", "zone_connect", "version", "links", "no_connects", "drawings", "tracks", "zones", "modules", "nets") and under != "nets":
            return INTEGERS
        if key == "type":
            return ["signal", "power", "mixed", "jumper", "user"] if under == "layers" else None
        more = {"name": ["reference", "value", "user", "Reference", "1"], "v": ["smd", "virtual"]}.get(key, [])
        return WORDS + more + (g.nets or []) + (g.refs or []) + ["x" * 70, "Net-(U1-Pad1)"]
    return None


def variants(g, d, key="", under="", at=""):
    """the thing with one of its parts another at a time, and which part that is"""
    alt = values_of(g, key, d, under)
    if alt is not None:
        for x in alt:
            if x != d:
                yield at, x
    elif isinstance(d, dict):
        round_ = "center" in d
        for k in d:
            if round_ and k in ("center", "end"):
                continue
            for p, x in variants(g, d[k], k, d.get("k", "") if k == "v" else key, at + "." + k):
                yield p, dict(d, **{k: x})
        if round_ and g.step == 640:
            for a, b in ((0, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (3, 4), (-3, 4), (5, -12), (-8, -15)):
                for k in (640, 12800, 1280000):
                    yield at + ".end", dict(d, end=dict(d["end"], x=d["center"]["x"] + a * k, y=d["center"]["y"] + b * k))
                    yield at + ".center", dict(d, center={"t": "center", "x": 0, "y": 0}, end=dict(d["end"], x=a * k, y=b * k))
        if "start" in d:
            yield at + ".end", dict(d, end=dict(d["start"], t="end"))
            yield at + ".start", dict(d, start=dict(d["start"], x=d["end"]["x"]))
            yield at + ".start", dict(d, start=dict(d["start"], y=d["end"]["y"]))
    elif isinstance(d, list):
        yield at, []
        if len(d) > 1:
            yield at, d[:1]
            yield at, d[1:]
            yield at, d[::-1]
            yield at, d + d
            yield at, d * 40
        for i, x in enumerate(d):
            for p, y in variants(g, x, key, key if isinstance(x, (dict, list)) else under, at if len(d) == 1 else "%s.%d" % (at, i)):
                yield p, d[:i] + [y] + d[i + 1:]


def without(d, numbers=False, words=False, lists=False, key=""):
    """the same with all its numbers nought, all its words empty or nothing in its lists"""
    if isinstance(d, dict):
        words = words and d.get("k") not in ("tedit", "tstamp")
        return {k: without(v, numbers, words, lists, k) for k, v in d.items()} if key != "v" or "l" not in d else d
    if isinstance(d, list):
        return [] if lists else [without(v, numbers, words, lists, key) for v in d]
    if isinstance(d, bool):
        return d
    if isinstance(d, int):
        return 0 if numbers else d
    return "" if words and key in ("name", "value", "descr", "tags", "path", "v", "desc", "net_name", "style", "connection", "smoothing", "status", "nets") else d


def surveyed(g, kind):
    """every item of a kind with one part another: (the whole item, the other)"""
    for whole, _, x in parted(g, kind):
        yield whole, x


def parted(g, kind):
    f = Full(g.r)
    f.__dict__.update({k: v for k, v in g.__dict__.items() if k in ("nets", "refs", "quarters", "step")})
    for k in FP_KINDS if kind == "fpel" else LAY_KINDS:
        whole = f.fpitem(k) if kind == "fpel" else f.layitem(k)
        if k == "module":
            whole["v"] = {"name": "m", "el": [f.fpitem(x) for x in ("at", "layer", "fp_line")]}
        if k == "fp_poly":
            whole["pts"] = [f.xy("xy") for _ in range(3)]
        bare = without(whole, lists=True)
        for w in (whole, bare):
            for x in (without(w, numbers=True), without(w, words=True), without(w, numbers=True, words=True)):
                yield whole, "all", x
        yield whole, "all", bare
        for p, x in variants(f, whole):
            if named(x):
                yield whole, p, x
        # the same in items of other kinds, and two parts another at once
        others = {"fp_text": [dict(whole, name=n) for n in ("reference", "value", "user")],
                  "pad": [dict(whole, t=t) for t in ("smd", "thru_hole", "np_thru_hole")]}.get(k, [])
        for w in others:
            if w != whole:
                vs = [(p, x) for p, x in variants(f, w) if p not in (".name", ".t")]
                yield whole, "all", w
                for p, x in f.r.sample(vs, min(len(vs), 150)):
                    yield w, p, x
        vs = [x for _, x in variants(f, whole) if named(x)]
        for x in f.r.sample(vs, min(len(vs), 60)):
            ys = [(p, y) for p, y in variants(f, x) if named(y)]
            if ys:
                p, y = f.r.choice(ys)
                yield x, p, y


BOARD_PARTS = LAY_KINDS + ["version", "page", "host", "general", "layers", "setup"]


def named(x):
    """not a section that the board reader takes for one of its own, or for none"""
    return x["k"] != "other" or bool(x["v"]["l"]) and x["v"]["l"][0].get("a", "net") not in BOARD_PARTS


# ---------------------------------------------------------------------------------- s-expression text

def lex(text):
    """tokens of an s-expression text, lossless: ('(' | ')' | blank run | word | quoted word)"""
    out = []
    i, n = 0, len(text)
    while i < n:
        c = text[i]
        j = i + 1
        if c in "()":
            pass
        elif c in " \t\r\n":
            while j < n and text[j] in " \t\r\n":
                j += 1
        elif c == '"':
            esc = False
            while j < n and (text[j] != '"' or esc):
                esc = text[j] == "\\"
                j += 1
            j = min(n, j + 1)
        else:
            while j < n and text[j] not in "() \r\n":
                j += 1
        out.append(text[i:j])
        i = j
    return out


def words_of(text):
    """the words the reader meets, in order, following the reader of KSexp.tla"""
    out = []
    at, frm, esc, depth = "top", 0, False, 0
    for i, c in enumerate(text):
        again = True
        while again:
            again = False
            if at == "top" and depth == 0:
                if c in " \t":
                    pass
                elif c in ")\n\r":
                    out.append("")
                    return out
                elif c == "(":
                    depth, at = 1, "in"
                elif c == '"':
                    at, frm = "quote", i + 1
                else:
                    at, frm = "word", i
            elif at == "in":
                if c in " \t\r\n":
                    pass
                elif c == ")":
                    depth -= 1
                    if depth == 0:
                        return out
                elif c == "(":
                    depth += 1
                elif c == '"':
                    at, frm = "quote", i + 1
                else:
                    at, frm = "word", i
            elif at == "word":
                if c in " \r\n()":
                    out.append(text[frm:i])
                    if depth == 0:
                        return out
                    at = "in"
                    again = c in "()"
            elif at == "quote":
                if c == '"' and not esc:
                    out.append(text[frm:i])
                    if depth == 0:
                        return out
                    at = "in"
                    esc = False
                else:
                    esc = c == "\\"
    if at == "word":
        out.append(text[frm:])
    return out


def ann(text, nums):
    r = []
    for w in words_of(text):
        m = nums.get(w)
        r.append({"w": w, "f": (m["f"] or [""])[0] if m else "", "i": (m["i"] or [""])[0] if m else "",
                  "x": (m["x"] or [""])[0] if m else ""})
    return r


# -------------------------------------------------------------------------- schematics, symbol libraries
PLAIN = ["R", "R1", "U10", "#PWR01", "74HC00", "~GND", "+3.3V", "a.b", "x-y_z", "(p)", "100nF", "C?", "é", "0", "-1", "1e3", "L", "F", "U", "$x",
         "TI:TPS{x}", "a'b", "VDD#", "日本", "NC", "D+", "Q1,Q2"]
FIELD_NAMES = {0: "Reference", 1: "Value", 2: "Footprint", 3: "UserDocLink"}
OTHERS = ["Entry Wire Line", "\t100 200 300 400", "$Bitmap", "Pos 1 2", "Scale 1.0", "Data", "89 50 4E 47 0D ", "EndData", "$EndBitmap", "",
          "   ", "Kmarq B 5 6 \"Warning Pin\" F=1", "#comment", "$EndDescr", "wire x", "unknown  line \"q\" ", "Connections ~ 1 2", "TextX"] \
    + [w for w in dictionary.WORDS if w.split()[0] not in ("$Comp", "$Sheet", "Wire", "Connection", "NoConn", "Text", "$EndSCHEMATC")]
DRAW_OTHERS = ["C 0 0 50 0 1 10 N", "A 0 0 50 1 -1 0 1 0 N 1 2 3 4", "P 2 0 1 0  -50 0 50 0 N", "T 0 0 100 50 0 0 1 \"a b\" Normal 0 C C", "B 1 2 3", "",
               "  X", "#", "DRAW", "X", "S", "ENDDEF", "$FPLIST"]


class GL(G):
    """schematics and symbol libraries; integers and decimals as text"""

    def plain(self):
        r = self.r
        if dictionary.TOKENS and r.random() < 0.2:
            return r.choice(dictionary.TOKENS)
        if r.random() < 0.1:
            return r.choice(dictionary.KNOWN)
        if r.random() < 0.7:
            return r.choice(PLAIN)
        al = string.ascii_letters + string.digits + "_-+./()%{}*#~'=,;:<>[]@!?|^&$"
        return "".join(r.choice(al) for _ in range(r.randint(1, 9)))

    def value(self):
        return self.word().replace("\\", "/")

    wide = True      # numbers beyond what the specification can calculate with

    def sint(self, wide=True):
        r = self.r
        v = r.choice([0, 1, 9, 50, 60, 100, 1234, 12345, 650, 3, 10, 4050, 123456])
        near = [abs(n) for n in dictionary.INTS if abs(n) < 2 ** (31 if wide and self.wide else 30)]
        if near and r.random() < 0.15:
            v = r.choice(near)
        if wide and self.wide and r.random() < 0.06:
            v = r.choice([255, 256, 32767, 32768, 65535, 65536, 1000000, 2147483647, 2147483648, 4294967296, 1000000000000, 9007199254740993,
                          9223372036854775807])
        return str(-v if v and r.random() < 0.3 else v)

    def decimal(self):
        return self.sint(False) if self.r.random() < 0.6 else self.snum()

    def style(self):
        return {"o": self.r.choice("HV"), "visible": self.b(), "h": self.r.choice("LRCBT"), "v": self.r.choice("LRCBT"),
                "italic": self.b(0.3), "bold": self.b(0.3)}

    def number_and_name(self, i=None):
        if i is None:
            i = self.r.choice([0, 1, 2, 3, 4, 5, 6, 11, 100])
        return {"i": str(i), "name": FIELD_NAMES[i] if i in FIELD_NAMES else self.value()}

    def field(self, i=None):
        d = {"value": self.value(), "x": self.decimal(), "y": self.decimal(), "size": self.sint()}
        d.update(self.style())
        d.update(self.number_and_name(i))
        return d

    def comp(self):
        r = self.r
        n = r.choice([0, 2, 2, 4, 4, 5, 7])
        fields = [self.field(i) for i in range(n)] if r.random() < 0.7 else [self.field() for _ in range(n)]
        rot = r.choice([["1", "0", "0", "-1"], ["0", "-1", "-1", "0"], ["-1", "0", "0", "1"], ["0", "1", "1", "0"], ["0", "0", "0", "0"],
                        [self.sint() for _ in range(4)]])
        return {"k": "comp", "name": self.plain(), "ref": self.plain(),
                "u": r.choice(["", "U 1 1 %s" % self.stamp(), "U 2 1 %s" % self.stamp(), "U %d 2 0" % r.randint(1, 12), "U 1", "U", "U %s 1 %s" % (self.sint(), self.stamp())]),
                "x": self.sint(), "y": self.sint(),
                "ar": [r.choice(["AR Path=\"/%s/%s\" Ref=\"R%d\"  Part=\"1\" " % (self.stamp(), self.stamp(), r.randint(1, 99)), "AR", "AR x  y"])
                       for _ in range(r.choice([0, 0, 1, 2]))],
                "fields": fields, "rot": rot}

    def schitem(self, k=None):
        r = self.r
        k = k or r.choice(["comp", "comp", "wire", "conn", "noconn", "text", "text", "other"])
        if k == "comp":
            return self.comp()
        if k == "wire":
            return {"k": k, "t": r.choice(["Wire", "Bus", "Notes"]), "x1": self.sint(), "y1": self.sint(), "x2": self.sint(), "y2": self.sint()}
        if k in ("conn", "noconn"):
            return {"k": k, "x": self.sint(), "y": self.sint()}
        if k == "other":
            return {"k": k, "v": r.choice(OTHERS)}
        t = r.choice(["Label", "Notes", "GLabel", "HLabel"])
        return {"k": k, "t": t, "x": self.sint(), "y": self.sint(), "o": str(r.randint(0, 3)), "size": self.sint(),
                "shape": [r.choice(["Input", "Output", "BiDi", "3State", "UnSpc"])] if t in ("GLabel", "HLabel") else [],
                "italic": self.b(), "thickness": self.sint(), "text": r.choice([self.value(), "$EndComp", "Text Notes", "say \"hi\"", "a\\nb"])}

    def sheet(self):
        r = self.r
        return {"x": self.sint(), "y": self.sint(), "dimx": self.sint(), "dimy": self.sint(), "unique": self.stamp(), "name": self.value(),
                "name_size": self.sint(), "filename": self.value(), "filename_size": self.sint(),
                "labels": [{"name": self.value(), "form": r.choice("IOBTU"), "side": r.choice("LRTB"), "x": self.sint(), "y": self.sint(),
                            "size": self.sint()} for _ in range(r.choice([0, 1, 2, 12]))]}

    def descr(self):
        d = {"size": self.r.choice(["A4", "A3", "A0", "User", "User", "USLetter", self.plain(), self.plain()]), "dimx": self.sint(), "dimy": self.sint(), "sheet": self.sint(), "sheet_count": self.sint(False)}
        for k in ("title", "date", "rev", "comp", "comment1", "comment2", "comment3", "comment4"):
            d[k] = self.value()
        return d

    def schematic(self, hi=8):
        r = self.r
        return {"libs": [self.value() for _ in range(r.randint(0, 3))], "eelayer": r.choice(["EELAYER 25 0", "EELAYER 27 0", "EELAYER "]),
                "descr": self.descr(), "el": [self.schitem() for _ in range(r.randint(0, hi))], "sheets": [self.sheet() for _ in range(r.choice([0, 0, 1, 2]))]}

    def symfield(self, i=None):
        d = {"value": self.value(), "x": self.decimal(), "y": self.decimal(), "dim": self.r.choice(["50", "50", self.sint()])}
        d.update(self.style())
        d.update(self.number_and_name(i))
        return d

    def draw(self):
        r = self.r
        k = r.choice(["pin", "pin", "rect", "other"])
        if k == "pin":
            return {"k": k, "name": self.plain(), "number": self.plain(), "x": self.sint(), "y": self.sint(), "len": r.choice(["100", "50", "300", self.sint()]),
                    "o": r.choice("UDLR"), "num_size": r.choice(["50", self.sint()]), "name_size": r.choice(["50", self.sint()]), "unit": self.sint(),
                    "convert": self.sint(), "t": r.choice("IOBTPUWwCEN"), "visible": self.b(0.7),
                    "shape": r.choice(["", "", "I", "C", "CI", "L", "CL", "V", "F", "X"])}
        if k == "rect":
            return {"k": k, "x1": self.sint(), "y1": self.sint(), "x2": self.sint(), "y2": self.sint(), "unit": self.sint(), "convert": self.sint(),
                    "thickness": r.choice(["10", self.sint()]), "fill": r.choice("FfN")}
        return {"k": k, "v": r.choice(DRAW_OTHERS)}

    def symbol(self):
        r = self.r
        n = r.choice([0, 1, 2, 4, 4, 6])
        return {"name": self.plain(), "ref": self.plain(), "off": self.decimal(), "pinnum": self.b(), "pinname": self.b(), "units": self.sint(),
                "locked": self.b(), "power": self.b(), "fields": [self.symfield(i) for i in range(n)] if r.random() < 0.7 else [self.symfield() for _ in range(n)],
                "aliases": [self.plain() for _ in range(r.choice([0, 0, 1, 3]))], "draw": [self.draw() for _ in range(r.randint(0, 6))]}

    def library(self, hi=4):
        return [self.symbol() for _ in range(self.r.randint(0, hi))]

    def linedoc(self, kind, hi=None):
        if kind == "sch":
            return self.schematic(8 if hi is None else hi)
        return self.library(4 if hi is None else hi)


def near(r, s):
    """a text that is almost another one"""
    return r.choice([s.upper(), s.lower(), s.swapcase(), " " + s, s + " ", "/" + s, s + "/", s[:-1], s[1:], s + s, s + "x", "x" + s, s + "1", s + "0",
                     s.strip("/"), s.replace("/", ""), s + "\u00a0", s.strip(), "", s[::-1], s[:1] + s[2:], "~" + s, "#" + s, s + "?"])


def family(r, bases, n):
    """texts and others that are almost the same"""
    return list(bases) + [near(r, r.choice(bases)) for _ in range(n)]


# ------------------------------------------------------------------------------------- long lists
LISTS = {
    "fp": ["el", "pts", "layers"],
    "lay": ["el", "el.el", "setup", "plot", "layers", "nets", "polygons", "polygons.",
            "filled_polygons", "filled_polygons.", "fill_segments.", "pts", "other", "l", "feature1"],
    "tab": [""],
    "sch": ["el", "libs", "sheets", "labels", "fields", "ar"],
    "lib": ["", "fields", "aliases", "draw"],
}


def lists_of(doc, key, at=""):
    """the lists of a document under a name; those inside modules of a board and those inside lists by a longer one"""
    if isinstance(doc, list):
        if at == key and doc:
            yield doc
        for x in doc:
            yield from lists_of(x, key, at + "." if isinstance(x, list) else at)
    elif isinstance(doc, dict):
        for k, v in doc.items():
            yield from lists_of(v, key, "el.el" if k == "el" and at == "el" else k if k != "v" else at)


def another(x, i, g):
    """a copy that differs in its first coordinate, number or text"""
    if isinstance(x, str):
        return x + (" " if x.startswith("AR") else "") + str(i)
    if isinstance(x, list):
        return [another(y, i, g) if j == 0 else y for j, y in enumerate(x)]
    y = dict(x)
    if "i" in y and "o" in y and "value" in y:
        y.update(g.number_and_name(i))
    if isinstance(y.get("x"), int):
        y["x"] = (3300 + i) * 640 * (1 if i % 3 else -1)
        return y
    for k in ("x", "x1", "value", "num", "v1", "a"):
        if k in y and isinstance(y[k], str) and k == "x":
            y[k] = str(i)
            break
        if k in y and isinstance(y[k], str):
            y[k] = str(i) if k in ("x1", "num") else y[k] + str(i)
            break
    return y


def stretch(g, make, key, n, budget=40000):
    """a document with one list of that name grown to n entries, fewer if they are big; None if there is no such list"""
    for _ in range(200):
        d = make()
        ls = list(lists_of(d, key))
        if not ls:
            continue
        x = g.r.choice(ls)
        if key == "l":
            x = x if len(x) > 1 else x + [{"a": "w"}]
        size = max(1, len(json.dumps(x[-1])))
        n = min(n, max(12, budget // size))
        del x[max(n, 1):]
        while len(x) < n:
            x.append(another(x[-1] if key == "l" else g.r.choice(x), len(x), g))
        return d
    return None


def twin(g, make, key, how):
    """a document with an entry of one list of that name there more than once"""
    for _ in range(200):
        d = copy.deepcopy(make())
        ls = list(lists_of(d, key))
        if not ls:
            continue
        x = g.r.choice(ls)
        i = g.r.randrange(len(x))
        x[:] = [x + x[-1:], x[:1] + x, x + x[:1], x[i:i + 1] * 3, x + x, x[:i + 1] + x[i:], x + x[i:i + 1] * 2][how]
        return d
    return None


def grown(g, make, key, more):
    """documents in which one list is long or holds an entry more than once"""
    ns = [300] + g.r.sample([17, 33, 41, 65, 101, 129, 257], more) + dictionary.LENGTHS[:12]
    for d in [stretch(g, make, key, n) for n in ns] + [twin(g, make, key, how) for how in range(7)]:
        if d is not None:
            yield d


def nums(o):
    """what the words of a text are as numbers"""
    return {w: {"i": (m["i"] or [""])[0], "f": (m["f"] or [""])[0]} for w, m in o.items()}
