"""Known findings: committed inputs on which the library is known to differ from the strict specification."""
import json
import os

from . import run
from .ctx import outcome

FILE = os.path.join(run.ROOT, "known_findings.json")


def entries(pid):
    if not os.path.exists(FILE):
        return []
    with open(FILE) as f:
        return [e for e in json.load(f)["known"] if e["property"] == pid]


def replay(c):
    es = entries(c.pid)
    if not es:
        return
    for e in es:
        for s in e["steps"]:
            if isinstance(s.get("text"), dict):
                w, n = s["text"]["repeat"]
                s["text"] = w * n
    outs = c.harness([e["steps"] for e in es], timeout=60)
    by = {}
    for e, o in zip(es, outs):
        ev = c.events(e["steps"], o)
        p = next((k for k, x in enumerate(ev) if "panic" in x["out"]), None)
        if p is not None:
            c.known_finding(e["what"])
            continue
        by.setdefault(e["spec"], []).append((e, ev))
    for module, items in by.items():
        mism, r = run.validate(module, [ev for _, ev in items], c.scratch, strict=True)
        for t, _, _ in mism:
            c.known_finding(items[t][0]["what"])
