"""Runs TLC: model checking, behaviour generation and trace validation."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
TLA = "/opt/veriftools/tla"
CP = "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (TLA, TLA)


class TLCError(Exception):
    """TLC could not do its job: a failure of the machinery."""


def scratch():
    base = os.environ.get("VERIF_SCRATCH")
    return tempfile.mkdtemp(prefix="kielv", dir=base)


def run(module, cfg, args=(), env=None, timeout=600, workers=1, heap="3g"):
    """Runs TLC on spec/<module>.tla with spec/<cfg>; returns (rc, stdout)."""
    meta = scratch()
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m",
           "-Xmx" + heap, "-cp", CP, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers),
           "-config", cfg] + list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as t:
        return -1, (t.stdout or b"").decode("utf-8", "replace")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def counts(out):
    out = "\n".join(l for l in out.splitlines() if len(l) < 300)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states", out)
    if not m:
        m2 = re.findall(r"([\d,]+) states checked", out)
        n = int(m2[-1].replace(",", "")) if m2 else 0
        return n, n
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def printed(out):
    """The JSON values printed with PrintT(ToJson(..))."""
    for line in out.splitlines():
        if line.startswith('"') and line.endswith('"') and len(line) > 2:
            try:
                yield json.loads(json.loads(line))
            except ValueError:
                continue


def model_check(module, cfg, timeout=600, workers=4, args=(), env=None):
    """Exhaustive check; returns dict(ok, generated, distinct, out)."""
    rc, out = run(module, cfg, ["-deadlock"] + list(args), timeout=timeout,
                  workers=workers, env=env)
    g, d = counts(out)
    done = "Model checking completed. No error has been found." in out
    return dict(ok=done, rc=rc, generated=g, distinct=d, out=out)


def simulate(module, cfg, num, depth, seed, timeout=300, env=None):
    """Random behaviours; returns what they printed."""
    rc, out = run(module, cfg,
                  ["-deadlock", "-simulate", "num=%d" % num, "-depth", str(depth),
                   "-seed", str(seed)], timeout=timeout, env=env)
    vals = list(printed(out))
    if not vals:
        raise TLCError("no behaviours from %s/%s:\n%s" % (module, cfg, out[-3000:]))
    return vals, counts(out)


def generate(module, cfg, timeout=300, env=None, workers=1):
    """All values printed during an exhaustive run."""
    rc, out = run(module, cfg, ["-deadlock"], timeout=timeout, env=env,
                  workers=workers)
    if "No error has been found" not in out:
        raise TLCError("%s/%s:\n%s" % (module, cfg, out[-3000:]))
    return list(printed(out)), counts(out)


def _check_chunk(module, cfg, chunk, timeout):
    d = scratch()
    try:
        path = os.path.join(d, "traces.json")
        with open(path, "w") as f:
            json.dump([t for _, t in chunk], f)
        rc, out = run(module, cfg, ["-deadlock"], env={"TRACE_FILE": path},
                      timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    verdicts = {}
    for v in printed(out):
        if isinstance(v, dict) and "verdict" in v:
            i = chunk[v["verdict"] - 1][0]
            verdicts[i] = sorted(tuple(b) for b in v["bad"])
    g, d_ = counts(out)
    if "Parsing or semantic analysis failed" in out or "java.lang.OutOfMemory" in out \
            or "Finished in" not in out:
        raise TLCError("%s: %s" % (module, out[-3000:]))
    missing = [c for c in chunk if c[0] not in verdicts]
    if missing:
        if len(chunk) == 1:
            # the specification cannot even make sense of this trace
            m = re.search(r"Error: (.*)", out)
            verdicts[chunk[0][0]] = [(0, "*", "unexplainable: %s" % (
                (out[m.start():m.start() + 700] if m else out[-700:])))]
            return verdicts, g, d_
        half = max(1, len(missing) // 2)
        for part in (missing[:half], missing[half:]):
            if part:
                v, g2, d2 = _check_chunk(module, cfg, part, timeout)
                verdicts.update(v)
                g += g2
                d_ += d2
    return verdicts, g, d_


def check_traces(module, traces, cfg=None, timeout=600, jvms=4):
    """Validates traces; returns (verdicts per index, generated, distinct)."""
    cfg = cfg or module + ".cfg"
    idx = list(enumerate(traces))
    n = max(1, min(jvms, (len(idx) + 39) // 40))
    chunks = [idx[i::n] for i in range(n)]
    verdicts, g, d = {}, 0, 0
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for v, g1, d1 in ex.map(
                lambda c: _check_chunk(module, cfg, c, timeout), chunks):
            verdicts.update(v)
            g += g1
            d += d1
    return [verdicts[i] for i in range(len(traces))], g, d
