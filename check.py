#!/usr/bin/env python3
"""check.py <property>            run one check (VERIF_TIER, VERIF_SEED)
check.py --replay <file>       run the histories of a replay file again and show what differs
check.py --setup               build everything once"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import checks, edits, files, known, lines, programs, run, values  # noqa: E402
from vlib.ctx import Ctx, outcome  # noqa: E402


def diff(a, b, p="", out=None):
    out = [] if out is None else out
    if type(a) is not type(b):
        out.append("%s: got %s, expected %s" % (p, json.dumps(a)[:300], json.dumps(b)[:300]))
    elif isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a:
                out.append("%s.%s: missing, expected %s" % (p, k, json.dumps(b[k])[:300]))
            elif k not in b:
                out.append("%s.%s: unexpected %s" % (p, k, json.dumps(a[k])[:300]))
            else:
                diff(a[k], b[k], p + "." + k, out)
    elif isinstance(a, list):
        if len(a) != len(b):
            out.append("%s: %d elements, expected %d" % (p, len(a), len(b)))
        for i, (x, y) in enumerate(zip(a, b)):
            diff(x, y, "%s[%d]" % (p, i), out)
    elif a != b:
        out.append("%s: got %s, expected %s" % (p, json.dumps(a), json.dumps(b)))
    return out


def replay(path):
    with open(path) as f:
        items = json.load(f)
    c = Ctx(items[0]["property"], "quick", 0)
    try:
        c.build()
        outs = c.harness([i["steps"] for i in items])
        for i, o in zip(items, outs):
            k = i["at_step"]
            print("-- %s / %s, step %d: %s" % (i["property"], i["part"], k, json.dumps(i["steps"][k], ensure_ascii=False)[:600]))
            got = outcome(o[k]) if k < len(o) else {"panic": "?"}
            want = i["expected"]
            if isinstance(want, dict) and "v" in want and len(want) == 1:
                want = want["v"]
            for line in diff(got.get("v", got), want)[:12]:
                print("   " + line)
    finally:
        c.close()
    return 0


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        print(run.build())
        return 0
    if len(sys.argv) != 2 or sys.argv[1] not in checks.CHECKS:
        sys.stderr.write(__doc__ + "\n")
        return 2
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = sum(map(ord, os.environ["VERIF_SEED"]))
    c = Ctx(pid, tier, seed)
    try:
        c.build()
        known.replay(c)
        checks.CHECKS[pid](c)
    except run.ToolError as e:
        if not c.bad:
            sys.stderr.write("ERROR %s: %s\n" % (pid, e))
            return 2
        sys.stderr.write("note: part of the check did not run: %s\n" % e)
    except Exception:
        traceback.print_exc()
        if not c.bad:
            return 2
    finally:
        c.close()
    c.evidence()
    for k in c.known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if c.bad:
        p = c.replay_file()
        b = c.bad[0]
        print("%d history(ies) differ from the specification; shortest: part %s, step %d (%s)"
              % (len(c.bad), b["part"], b["at_step"], b["steps"][b["at_step"]]["op"]))
        want = b["expected"]
        if isinstance(want, dict) and "v" in want and len(want) == 1:
            want = want["v"]
        for line in diff(b["observed"].get("v", b["observed"]), want)[:8]:
            print("   " + line)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    print("%s held: %d states, %d transitions, %d histories on the library, %.1f s"
          % (pid, c.states, c.transitions, c.traces, __import__("time").time() - c.t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
