"""One run of one check: what it covers, what it finds, what it reports."""
import copy
import json
import os
import random
import shutil
import tempfile
import time

from . import gen, run

ROOT = run.ROOT
OFF_GRID = 1999999999


def norm(x):
    """JSON from TLC cannot tell an empty record from an empty sequence"""
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()} if x else []
    if isinstance(x, list):
        return [norm(v) for v in x]
    return x


def on_grid(x):
    """numbers off the integer grid become a number no expectation contains"""
    if isinstance(x, dict):
        return {k: on_grid(v) for k, v in x.items()}
    if isinstance(x, list):
        return [on_grid(v) for v in x]
    if isinstance(x, str) and x.startswith("off-grid:"):
        return OFF_GRID
    return x


def outcome(x):
    if isinstance(x, dict) and "panic" in x:
        return {"panic": str(x["panic"])[:200]}
    if isinstance(x, dict) and "nums" in x:
        x = {k: v for k, v in x.items() if k != "nums"}
    return {"v": on_grid(x)}


def corrupt(x, rng):
    """change one leaf of a recorded outcome; None when there is nothing to change"""
    x = copy.deepcopy(x)
    leaves = []

    def walk(v):
        if isinstance(v, dict):
            for k in v:
                if isinstance(v[k], (dict, list)):
                    walk(v[k])
                else:
                    leaves.append((v, k))
        elif isinstance(v, list):
            for k in range(len(v)):
                if isinstance(v[k], (dict, list)):
                    walk(v[k])
                else:
                    leaves.append((v, k))

    walk(x)
    if not leaves:
        return None
    c, k = rng.choice(leaves)
    v = c[k]
    if isinstance(v, bool):
        c[k] = not v
    elif isinstance(v, int):
        c[k] = v + 1
    else:
        c[k] = v + "x"
    return x


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        os.makedirs(os.path.join(ROOT, "work"), exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(ROOT, "work"))
        self.binary = None
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.selftests = 0
        self.parts = []
        self.samples = []
        self.assumptions = []
        self.exhaustive_parts = []
        self.bad = []       # violations: dicts
        self.known = []     # known findings still present

    # ---------------------------------------------------------------------------------- basics
    def rng(self, name):
        return random.Random("%s/%s/%s" % (self.seed, self.pid, name))

    def gen(self, name):
        return gen.G(self.rng(name))

    def lines(self, name):
        return gen.GL(self.rng(name))

    def units(self, name, **kw):
        g = gen.GU(self.rng(name))
        for k, v in kw.items():
            setattr(g, k, v)
        return g

    def n(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def left(self, budget):
        """seconds left of a budget counted from the start of the check"""
        return budget - (time.time() - self.t0)

    def build(self):
        self.binary = run.build()

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def harness(self, histories, timeout=120):
        return run.run_histories(self.binary, histories, self.scratch, timeout)

    # ------------------------------------------------------------------------------ violations
    def violation(self, part, steps, k, observed, expected, how):
        self.bad.append({"property": self.pid, "part": part, "how": how, "steps": steps, "at_step": k,
                         "observed": observed, "expected": expected})

    # -------------------------------------------------------- recorded traces against the spec
    def events(self, steps, outs):
        ev = []
        for s, o in zip(steps, outs):
            e = dict(s)
            if s["op"] == "parse" and s.get("kind") in ("fp", "lay", "tab") and isinstance(o, dict) and "nums" in o:
                e["ann"] = gen.ann(s["text"], o["nums"])
            elif s["op"] == "parse" and s.get("kind") in ("fp", "lay", "tab"):
                e["ann"] = []
            elif s["op"] == "parse":
                e["num"] = gen.nums(o["nums"]) if isinstance(o, dict) and "nums" in o else {}
            elif s["op"] in ("put", "write_text"):
                got = o["nums"] if isinstance(o, dict) and "nums" in o else {"0": {"f": ["0"], "i": ["0"], "x": ["0"]}}
                e["num"] = gen.nums(got)
                e["ann"] = gen.ann(s["text"], got)
            e["out"] = outcome(o)
            ev.append(e)
        return ev

    def record(self, part, module, histories, strict=False, timeout=700, annotate=None, harness_timeout=120):
        """run histories on the library and have TLC accept or reject each recorded trace.
        A few copies with one corrupted outcome ride along and must be rejected."""
        if not histories:
            return
        t0 = time.time()
        outs = self.harness(histories, harness_timeout)
        t1 = time.time()
        traces = []
        pre = []
        for i, (h, o) in enumerate(zip(histories, outs)):
            ev = self.events(h, o)
            if annotate:
                annotate(h, o, ev)
            # a panic is data, but no specification step has it as its outcome
            p = next((k for k, e in enumerate(ev) if "panic" in e["out"]), None)
            if p is not None:
                pre.append((i, p))
                ev = ev[:p]
            traces.append(ev)
        rng = self.rng(part + "/selftest")
        cands = [i for i, ev in enumerate(traces) if ev]
        rng.shuffle(cands)
        planted = []
        for i in cands[:40]:
            if len(planted) >= self.n(6, 20):
                break
            ks = [k for k, e in enumerate(traces[i]) if e["op"] not in ("mode", "new") and "v" in e["out"]]
            if not ks:
                continue
            k = rng.choice(ks)
            bad = corrupt(traces[i][k]["out"], rng)
            if bad is None:
                continue
            ev = copy.deepcopy(traces[i][:k + 1])
            ev[k]["out"] = bad
            planted.append((len(traces) + len(planted), k, i, ev))
        mism, r = run.validate(module, traces + [p[3] for p in planted], self.scratch, strict, timeout)
        rejected = {t: (k, want) for t, k, want in mism}
        for t, k, i, _ in planted:
            got = rejected.pop(t, None)
            if got and r.partial:
                # corrupting a value keeps its type, so the original differs in type as well
                rejected[i] = got
            # the original may itself be rejected at or before that step
            if got is None and not r.partial:
                raise run.ToolError("%s: a corrupted outcome was accepted by %s (trace %d step %d)" % (part, module, i, k))
            self.selftests += 1
        for i, p in pre:
            if i not in rejected:
                self.violation(part, histories[i], p, outcome(outs[i][p]) if p < len(outs[i]) else {"panic": "?"},
                               "no panic, abort or hang", module)
        for i, (k, want) in sorted(rejected.items()):
            self.violation(part, histories[i], k, traces[i][k]["out"], want, module)
        self.states += r.distinct
        self.transitions += r.generated - len(traces) - len(planted) if r.generated else 0
        self.traces += len(histories)
        self.parts.append({"part": part, "spec": module, "kind": "recorded traces accepted by the specification",
                           "histories": len(histories), "library_calls": sum(len(h) for h in histories),
                           "trace_states": r.distinct, "corrupted_copies_rejected": len(planted),
                           "harness_s": round(t1 - t0, 1), "tlc_s": round(r.wall, 1)})
        self.sample(part, histories[0])
        return outs

    # ------------------------------------------------- behaviours of the spec against the code
    def model(self, part, module, history, constants=None, invariants=(), timeout=700, exhaustive=True, init="Init", nxt="Next",
              heap="6g", check_deadlock=False, thin=None, batch=0):
        """explore a bounded model with TLC; every emitted behaviour is replayed on the library.
        history(emitted) -> (steps, expected outcomes; None where nothing is expected)."""
        cfg = "INIT %s\nNEXT %s\nCHECK_DEADLOCK %s\n" % (init, nxt, "TRUE" if check_deadlock else "FALSE")
        for i in invariants:
            cfg += "INVARIANT %s\n" % i
        def some(lines):
            return self.rng(part + "/thin").sample(sorted(lines), thin) if len(lines) > thin else lines
        r = run.tlc(module, cfg, self.scratch, timeout=timeout, heap=heap, constants=constants, choose=some if thin else None)
        if r.violated:
            # a theorem about the specification failed: the machinery is wrong, not the code
            raise run.ToolError("%s: invariant %s of the specification is violated\n%s" % (module, r.violated, r.output[-3000:]))
        if history is not None and not r.emitted:
            raise run.ToolError("%s emitted no behaviour" % module)
        self.states += r.distinct
        self.transitions += r.generated
        info = {"part": part, "spec": module, "kind": "bounded model explored by TLC", "states": r.distinct,
                "transitions": r.generated, "theorems": list(invariants), "tlc_s": round(r.wall, 1)}
        if history is not None:
            em = r.emitted
            hs, wants = [], []
            for e in ([em[i:i + batch] for i in range(0, len(em), batch)] if batch else em):
                for s, w in history(e):
                    hs.append(s)
                    wants.append(w)
            t0 = time.time()
            outs = self.harness(hs, 300)
            nbad = 0
            compared = 0
            for s, w, o in zip(hs, wants, outs):
                for k, x in enumerate(w):
                    if k >= len(o):
                        break
                    if x is not None and o[k] == x:
                        compared += 1
                        continue
                    got = outcome(o[k])
                    if "panic" not in got and x is None:
                        continue
                    compared += 1
                    if "panic" in got or norm(got["v"]) != norm(x):
                        nbad += 1
                        self.violation(part, s, k, got, x if x is not None else "no panic, abort or hang", module)
                        break
            if not compared:
                raise run.ToolError("%s: nothing was compared" % part)
            self.traces += len(hs)
            info.update(behaviours_emitted=r.count, histories=len(hs), outcomes_compared=compared,
                        harness_s=round(time.time() - t0, 1))
            # the comparison must be able to fail
            for s, w, o in zip(hs, wants, outs):
                ks = [k for k, x in enumerate(w) if x is not None and k < len(o)]
                if ks:
                    c = corrupt({"v": w[ks[-1]]}, self.rng(part))
                    if c is not None and norm(c["v"]) == norm(w[ks[-1]]):
                        raise run.ToolError("%s: a corrupted expectation was accepted" % part)
                    self.selftests += 1
                    break
            self.sample(part, hs[len(hs) // 2])
            if exhaustive and not thin:
                self.exhaustive_parts.append(part)
        self.parts.append(info)
        return r

    def sample(self, part, steps):
        if len(self.samples) < 6:
            s = json.dumps(steps, ensure_ascii=False)
            self.samples.append({"part": part, "history": steps if len(s) < 3000 else s[:3000] + "..."})

    # --------------------------------------------------------------------------------- report
    def known_finding(self, what):
        self.known.append(what)

    def evidence(self):
        p = os.path.join(ROOT, "evidence")
        os.makedirs(p, exist_ok=True)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                "samples": self.samples, "parts": self.parts, "corrupted_outcomes_rejected": self.selftests,
                "exhaustive": False, "exhaustive_within_bounds": self.exhaustive_parts,
                "known_findings_present": len(self.known),
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.bad),
        }
        tmp = os.path.join(p, ".%s.tmp" % self.pid)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        os.replace(tmp, os.path.join(p, self.pid + ".json"))

    def replay_file(self):
        d = os.path.join(ROOT, "work", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (self.pid, self.seed))
        # the shortest history first
        self.bad.sort(key=lambda b: len(json.dumps(b["steps"])))
        with open(p, "w") as f:
            json.dump(self.bad[:20], f, indent=1, ensure_ascii=False)
        return p
