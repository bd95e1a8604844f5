#!/usr/bin/env python3
"""bugs.py new <id> <property>     record the changes in /tmp/bugs/edit (a copy of /repo) as a planted bug
bugs.py try [<id> ...]          for each: patch applies, tests pass, demo tells them apart, which checks catch it
   --all-checks also runs the checks of the other properties; --quick skips tests and demo"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
W = "/tmp/bugs"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh(name):
    d = os.path.join(W, name)
    os.makedirs(W, exist_ok=True)
    if not os.path.exists(d):
        subprocess.run(["cp", "-a", "/repo", d], check=True)
    else:
        subprocess.run("git -C %s checkout -q -- . && git -C %s pull -q /repo main" % (d, d), shell=True, check=True)
    return d


def demo(i, d):
    e = dict(os.environ, DEMO_REPO=d)
    return sh(["bash", os.path.join(SEEDED, i, "demo.sh")], cwd=d, env=e, timeout=300)


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    if a[0] == "edit":
        print(fresh("edit"))
        return
    if a[0] == "new":
        i, prop = a[1], a[2]
        d = os.path.join(SEEDED, i)
        os.makedirs(d, exist_ok=True)
        p = subprocess.run(["git", "-C", os.path.join(W, "edit"), "diff"], capture_output=True, text=True, check=True).stdout
        assert p.strip(), "no change"
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(p)
        shutil.copy(os.path.join(ROOT, "tools", "demo.sh"), os.path.join(d, "demo.sh"))
        shutil.copy(os.path.join(ROOT, "harness", "Cargo.lock"), os.path.join(d, "demo.lock"))
        m = os.path.join(d, "meta.json")
        if not os.path.exists(m):
            with open(m, "w") as f:
                json.dump({"property": prop, "needs": "", "what_it_breaks": ""}, f, indent=1)
        subprocess.run(["git", "-C", os.path.join(W, "edit"), "checkout", "-q", "--", "."], check=True)
        return
    ids = a[1:] or sorted(os.listdir(SEEDED))
    base = fresh("base")
    d = fresh("try")
    for i in ids:
        subprocess.run("git -C %s checkout -q -- ." % d, shell=True, check=True)
        with open(os.path.join(SEEDED, i, "meta.json")) as f:
            prop = json.load(f)["property"]
        out = []
        if "--quick" not in sys.argv:
            x = demo(i, base)
            out.append("demo on base %d" % x.returncode)
            if x.returncode:
                out.append(x.stdout[-1500:])
        x = sh(["git", "-C", d, "apply", os.path.join(SEEDED, i, "patch.diff")])
        if x.returncode:
            print(i, "PATCH DOES NOT APPLY", x.stdout)
            continue
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, "target"), CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1")
        if "--quick" not in sys.argv:
            x = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "-q"], cwd=d, env=env)
            out.append("tests %d" % x.returncode)
            if x.returncode:
                out.append(x.stdout[-1500:])
            x = demo(i, d)
            out.append("demo on bug %d" % x.returncode)
        checks = [prop]
        if "--all-checks" in sys.argv:
            with open(os.path.join(ROOT, "MANIFEST.json")) as f:
                checks = [c["property"] for c in json.load(f)["checks"]]
        for c in checks:
            x = sh([sys.executable, os.path.join(ROOT, "check.py"), c], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
            v = [ln for ln in x.stdout.splitlines() if ln.startswith("VIOLATION")]
            if x.returncode == 1 and v:
                out.append("%s CAUGHT" % c)
            elif x.returncode == 0:
                out.append("%s missed" % c)
            else:
                out.append("%s ERROR %d %s" % (c, x.returncode, x.stdout[-800:]))
        print(i, prop, "; ".join(out), flush=True)
    subprocess.run("git -C %s checkout -q -- ." % d, shell=True, check=True)


main()
