"""Running the pieces: harness build, histories against the library, TLC."""
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
TARGET = os.path.join(BUILD, "target")
# another working tree can be put in its place while the checks themselves are being tested
REPO = os.environ.get("VERIF_REPO", "/repo")
CORES = os.cpu_count() or 4


class ToolError(Exception):
    """the check itself failed; says nothing about the property"""


class Incomparable(Exception):
    """TLC met an observation whose type differs from what the specification expects: (trace, event)"""


def build():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env.setdefault("CARGO_HOME", "/root/.cargo")
    env["CARGO_NET_OFFLINE"] = "true"
    target, crate = TARGET, os.path.join(ROOT, "harness")
    if REPO != "/repo":
        target = os.path.join(REPO, "target", "harness")
        crate = os.path.join(target, "crate")
        shutil.rmtree(crate, ignore_errors=True)
        shutil.copytree(os.path.join(ROOT, "harness"), crate)
        with open(os.path.join(crate, "Cargo.toml")) as f:
            s = f.read()
        with open(os.path.join(crate, "Cargo.toml"), "w") as f:
            f.write(s.replace('"/repo"', '"%s"' % REPO))
    env["CARGO_TARGET_DIR"] = target
    os.makedirs(BUILD, exist_ok=True)
    p = subprocess.run(
        ["cargo", "build", "--release", "--offline", "-q"],
        cwd=crate,
        env=env,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        timeout=600,
    )
    if p.returncode != 0:
        raise ToolError("harness build failed:\n" + p.stdout.decode(errors="replace")[-4000:])
    return os.path.join(target, "release", "kicad-conformance")


PROGRAMS = []


def build_programs():
    """the programs of the repository, in a build directory of our own"""
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env.setdefault("CARGO_HOME", "/root/.cargo")
    target = os.path.join(BUILD, "programs") if REPO == "/repo" else os.path.join(REPO, "target", "programs")
    env.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, CARGO_PROFILE_DEV_DEBUG="0")
    p = subprocess.run(["cargo", "build", "--bins", "--offline", "-q"], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if p.returncode != 0:
        raise ToolError("the programs do not build:\n" + p.stdout.decode(errors="replace")[-4000:])
    PROGRAMS[:] = [os.path.join(target, "debug")]


MEMORY = 3 << 30     # of one harness process
HANG_CPU = 20        # seconds of processor time without a step forward
ENOUGH = 3           # aborted or hanging histories before the rest of a chunk is left out


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _cpu(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            v = f.read().rsplit(")", 1)[1].split()
        return (int(v[11]) + int(v[12])) / float(os.sysconf("SC_CLK_TCK"))
    except (OSError, IndexError, ValueError):
        return 0.0


def _wait(p, out, timeout):
    """wait for a harness process; True when it stopped making progress"""
    size, cpu, since = -1, 0.0, time.time()
    while True:
        try:
            p.wait(timeout=0.5)
            return False
        except subprocess.TimeoutExpired:
            pass
        n = os.path.getsize(out) if os.path.exists(out) else 0
        if n != size:
            size, cpu, since = n, _cpu(p.pid), time.time()
        elif _cpu(p.pid) - cpu > HANG_CPU or time.time() - since > timeout:
            return True


def _run_chunk(binary, chunk, scratch, timeout):
    """run histories [(id, steps)], surviving aborts and hangs; returns {id: outputs}"""
    res = {}
    todo = list(chunk)
    died = 0
    while todo:
        d = tempfile.mkdtemp(dir=scratch)
        inp, out, sd = (os.path.join(d, x) for x in ("in", "out", "files"))
        os.mkdir(sd)
        with open(inp, "w") as f:
            for i, steps in todo:
                f.write(json.dumps({"id": i, "steps": steps}) + "\n")
        env = {"HOME": "/verif-home"}
        if PROGRAMS:
            env["KICAD_PROGRAMS"] = PROGRAMS[0]
        p = subprocess.Popen(
            [binary, inp, out, sd], env=env, cwd=sd, stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, "err"), "wb"),
            start_new_session=True, preexec_fn=_limit,
        )
        hang = _wait(p, out, timeout)
        if hang:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        with open(os.path.join(d, "err"), "rb") as f:
            err = f.read()[-4000:]
        begun = None
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    try:
                        j = json.loads(line)
                    except ValueError:
                        break
                    if "begin" in j:
                        begun = j["begin"]
                    else:
                        res[j["id"]] = j["out"]
        shutil.rmtree(d, ignore_errors=True)
        if p.returncode == 0 and not hang:
            missing = [i for i, _ in todo if i not in res]
            if missing:
                raise ToolError("harness lost histories %r" % missing[:5])
            return res
        if p.returncode == 2 and not hang:
            raise ToolError("harness: " + err.decode(errors="replace")[-2000:])
        if begun is None or begun in res:
            raise ToolError("harness died outside a history: %r %s" % (p.returncode, err.decode(errors="replace")[-500:]))
        # the history that was running is to blame
        res[begun] = [{"panic": "hang" if hang else "abort %s" % p.returncode}]
        todo = [(i, s) for i, s in todo if i not in res]
        died += 1
        if died >= ENOUGH:
            # these are violations already; every further one would cost as much time again
            res.update((i, []) for i, _ in todo)
            break
    return res


def run_histories(binary, histories, scratch, timeout=120):
    """histories: list of step lists -> list of output lists (shorter when a step panicked)"""
    n = len(histories)
    idx = list(enumerate(histories))
    parts = max(1, min(CORES, n // 8 or 1))
    chunks = [idx[i::parts] for i in range(parts)]
    res = {}
    with ThreadPoolExecutor(parts) as ex:
        for r in ex.map(lambda c: _run_chunk(binary, c, scratch, timeout), chunks):
            res.update(r)
    return [res[i] for i in range(n)]


# ---------------------------------------------------------------------------------------------- TLC

RE_STATES = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left")


class TlcResult:
    def __init__(self):
        self.generated = 0
        self.distinct = 0
        self.emitted = []
        self.output = ""
        self.violated = None
        self.wall = 0.0
        self.count = 0
        self.partial = False


def tlc(module, cfg, scratch, env=None, workers=None, timeout=800, heap="6g", constants=None, choose=None):
    """run TLC on spec/<module>.tla with the given configuration text; constants may be any TLA+ expressions.
    choose may keep some of the emitted lines only"""
    d = tempfile.mkdtemp(dir=scratch)
    root = "Root_" + module
    with open(os.path.join(d, root + ".tla"), "w") as f:
        f.write("---- MODULE %s ----\nEXTENDS %s\n" % (root, module))
        for k, v in (constants or {}).items():
            f.write("value_of_%s == %s\n" % (k, v))
            cfg += "CONSTANT %s <- value_of_%s\n" % (k, k)
        f.write("====\n")
    cfgp = os.path.join(d, root + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    e.setdefault("STRICT", "0")
    # states that TLC moves to disk come back with the letters outside ASCII broken, so keep them all in memory
    e["JAVA_TOOL_OPTIONS"] = "-Dtlc2.tool.queue.DiskStateQueue.BufSize=2000000 -Dfile.encoding=UTF-8 -Dstdout.encoding=UTF-8 -Xmx%s -Xss64m -Djava.io.tmpdir=%s -DTLA-Library=%s" % (heap, d, SPEC)
    t0 = time.time()
    outp = os.path.join(d, "out")
    with open(outp, "w") as f:
        p = subprocess.Popen(
            ["tlc", "-config", cfgp, "-workers", str(workers or CORES), "-metadir", os.path.join(d, "meta"),
             "-noGenerateSpecTE", root + ".tla"],
            cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True,
        )
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise ToolError("TLC timed out on " + module)
    r = TlcResult()
    r.wall = time.time() - t0
    rest, lines = [], []
    with open(outp, encoding="utf-8", errors="replace") as f:
        for line in f:
            if line.startswith('"@@'):
                lines.append(line)
            else:
                rest.append(line)
    r.output = "".join(rest)
    r.count = len(lines)
    r.emitted = [json.loads(json.loads(x)[2:]) for x in (choose(lines) if choose else lines)]
    m = None
    for m in RE_STATES.finditer(r.output):
        pass
    if m:
        r.generated, r.distinct = (int(m.group(i).replace(",", "")) for i in (1, 2))
    v = re.search(r"Invariant (\S+) is violated", r.output)
    if v:
        r.violated = v.group(1)
    elif "Model checking completed. No error has been found." not in r.output:
        i = r.output.find("Error:")
        at = re.search(r"The behavior up to this point is:(.*?)\nError:", r.output, re.S)
        if at and "Attempted to check equality" in r.output and re.search(r"^\d+\. Line .* in Agree$", r.output, re.M):
            raise Incomparable(*(int(re.findall(r"^/\\ %s = (\d+)$" % v, at.group(1), re.M)[-1]) - 1 for v in "tk"))
        raise ToolError("TLC failed on %s:\n%s" % (module, r.output[i:i + 3000] if i >= 0 else r.output[-3000:]))
    shutil.rmtree(d, ignore_errors=True)
    return r


TRACE_CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"


MAX_BATCH = 60_000_000       # bytes of recorded traces that one run of TLC has room for


def validate(module, traces, scratch, strict=False, timeout=800):
    """check recorded traces (lists of events with their outputs) against a trace spec.
    Returns (mismatches [(trace, event, expected)], TlcResult)."""
    if not traces:
        return [], None
    lines = [json.dumps({"ev": ev}) + "\n" for ev in traces]
    bad, total, start, size = [], TlcResult(), 0, 0
    for i, line in enumerate(lines):
        size += len(line)
        if i + 1 < len(lines) and size + len(lines[i + 1]) <= MAX_BATCH:
            continue
        b, r = validate_batch(module, traces[start:i + 1], lines[start:i + 1], scratch, strict, timeout)
        bad += [(t + start, k, want) for t, k, want in b]
        total.distinct += r.distinct
        total.generated += r.generated
        total.wall += r.wall
        total.partial = total.partial or r.partial
        start, size = i + 1, 0
    return bad, total


def validate_batch(module, traces, lines, scratch, strict, timeout):
    p = tempfile.mktemp(suffix=".ndjson", dir=scratch)
    with open(p, "w") as f:
        f.writelines(lines)
    try:
        r = tlc(module, TRACE_CFG, scratch, {"TRACE": p, "STRICT": "1" if strict else "0"}, timeout=timeout)
    except Incomparable as x:
        # one disagreement is enough; what TLC had not reached by then stays unjudged
        r = TlcResult()
        r.partial = True
        return [(x.args[0], x.args[1], "a value of another type")], r
    finally:
        if os.environ.get("VERIF_KEEP") != "1":
            os.remove(p)
    if r.violated:
        raise ToolError("unexpected invariant violation in " + module)
    bad = [(m["t"] - 1, m["k"] - 1, m["want"]) for m in r.emitted]
    # every event of every trace that was not rejected must have been consumed
    want = sum(len(ev) + 1 for ev in traces)
    for (t, k, _) in bad:
        want -= len(traces[t]) - (k + 1)
    if r.distinct != want:
        raise ToolError("trace validation incomplete: %d states instead of %d" % (r.distinct, want))
    return bad, r
