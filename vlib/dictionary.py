"""Constants of the library's source, as values to try.

They only widen what is put in: which values are worth trying.  What comes out is judged by the specification alone.
Constants that vocabulary.json has are tried through the fixed pools of the generators; here are the others."""
import glob
import json
import os
import re

from .run import REPO

HERE = os.path.dirname(os.path.abspath(__file__))
LITERAL = re.compile(r'''(?P<line>//[^\n]*)|(?P<block>/\*.*?\*/)|r(?P<h>\#*)"(?P<raw>.*?)"(?P=h)|b?"(?P<s>(?:[^"\\]|\\.)*)"|b?'(?P<c>[^'\\\n]|\\.|\\u\{[0-9a-fA-F]+\})'(?!\w)'''
                     r'''|(?<![\w.])(?P<f>\d[\d_]*\.\d[\d_]*(?:[eE][-+]?\d+)?|\d[\d_]*(?:[eE][-+]?\d+)|\d[\d_]*\.(?![.\w]))(?:_?f\d\d)?'''
                     r'''|(?<![\w.])(?P<i>0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:_?[iu](?:\d+|size))?''', re.S)
ESCAPES = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", "'": "'", '"': '"'}


def plain(s):
    s = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)
    return re.sub(r"\\(.)", lambda m: ESCAPES.get(m.group(1), m.group(1)), s, flags=re.S)


def constants(text):
    d = {"strings": set(), "chars": set(), "ints": set(), "floats": set()}
    for m in LITERAL.finditer(text):
        k = m.lastgroup if m.lastgroup != "h" else "raw"
        if m.group("raw") is not None:
            d["strings"].add(m.group("raw"))
        elif m.group("s") is not None:
            d["strings"].add(plain(m.group("s")))
        elif m.group("c") is not None:
            d["chars"].add(plain(m.group("c")))
        elif k == "f":
            d["floats"].add(float(m.group("f").replace("_", "")))
        elif k == "i":
            d["ints"].add(int(m.group("i").replace("_", ""), 0) if not re.fullmatch(r"0\d+", m.group("i").replace("_", "")) else int(m.group("i")))
    return d


def sources():
    text = ""
    for f in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.rs"), recursive=True)):
        with open(f, encoding="utf-8", errors="replace") as h:
            text += h.read() + "\n"
    return text


def fresh():
    try:
        d = constants(sources())
    except (OSError, ValueError):
        return {"strings": [], "chars": [], "ints": [], "floats": []}
    with open(os.path.join(HERE, "vocabulary.json")) as f:
        known = json.load(f)
    return {k: sorted(d[k] - set(known[k]), key=lambda x: (len(str(x)), str(x))) for k in d}


def fit(s):
    """texts every format can hold"""
    return s != "" and len(s) <= 60 and s.isprintable() and '"' not in s and "\\" not in s and s == s.strip() \
        and not re.fullmatch(r"[-+]?(nan|inf|infinity|0*\.?0*)", s, re.I)


with open(os.path.join(HERE, "vocabulary.json")) as _h:
    KNOWN = [w for w in json.load(_h)["strings"] if fit(w) and len(w) < 16 and not set(w) & set("{} ")]
FRESH = fresh()
_s = [s for s in FRESH["strings"] if fit(s)][:40]
_c = [c for c in FRESH["chars"] if c.isprintable() and c not in '"\\'][:20]
# words equal to, starting with, ending with and holding the constants
WORDS = _s + ([w for s in _s for w in (s + "x", "x" + s, "x" + s + "x", s + " x", "x " + s, s + s)] if len(_s) <= 8 else [])
for c in _c:
    WORDS += [w for w in (c, "a" + c + "b", c + "a", "a" + c, "a" + c + c + "b") if fit(w)]
_n = [n for n in FRESH["ints"] if n < 2 ** 63][:30]
LENGTHS = sorted({m for n in _n for m in (n - 1, n, n + 1) if 2 <= m <= 700})[:45]
WORDS += ["q" * n for n in LENGTHS]
WORDS += [str(n) for n in _n] + ["R%d" % n for n in _n]
WORDS = [w for i, w in enumerate(WORDS) if w not in WORDS[:i]]
TOKENS = [w for w in WORDS if " " not in w]
# words that are numbers in no notation
STRAY = [w for w in TOKENS if not re.fullmatch(r"[-+]?([0-9a-fA-F]+|[0-9.]+([eE][-+]?[0-9]+)?|nan|inf|infinity)", w, re.I)]
INTS = sorted({m for n in _n for m in (n - 1, n, n + 1, -n) if m < 2 ** 63})
_f = [f for f in FRESH["floats"] if 1e-6 < f < 1e12][:30]


def canonical(f):
    """the shortest decimal text, without an exponent"""
    s = repr(round(f, 9))
    return None if "e" in s else s[:-2] if s.endswith(".0") else s


FLOATS = sorted({x for f in _f for x in (f, f + 0.01, f - 0.01, f + 1, f - 1, -f)} | {float(x) for x in INTS if abs(x) < 10 ** 12} | {n + d for n in _n if n < 10 ** 6 for d in (0.5, -0.5)})
NUMBERS = [t for t in (canonical(f) for f in FLOATS) if t is not None and t not in ("0", "-0")]
POSITIVE = [t for t in NUMBERS if t[0] != "-"]
# in units of 1/12800
UNITS = sorted({round(f * 12800) for f in FLOATS if abs(f) < 100000 and abs(f * 1280 / 64 - round(f * 1280 / 64)) < 1e-9})
