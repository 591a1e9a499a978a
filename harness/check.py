"""python -m harness.check <property> [--tier quick|thorough]
python -m harness.check --replay <file>

Decides one property: model checks the specifications it lives in, has TLC
generate behaviours, replays them into the real code in /repo, and validates
what the real code did against the specification.
"""
import argparse
import collections
import json
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"


def reexec():
    if os.environ.get("KIELV_CHILD") == "1":
        return
    env = dict(os.environ)
    env.update(KIELV_CHILD="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               PYTHONPATH=HERE)
    tmp = tempfile.mkdtemp(prefix="kielv")
    env["PYTHONPYCACHEPREFIX"] = tmp
    env["VERIF_SCRATCH"] = tmp
    exe = PYTHON if os.path.exists(PYTHON) else sys.executable
    import shutil
    import subprocess
    try:
        rc = subprocess.call([exe, "-m", "harness.check"] + sys.argv[1:],
                             cwd=HERE, env=env)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def _record(args):
    name, script = args
    from harness import domains
    import traceback
    try:
        return domains.DOMAINS[name].record(script)
    except Exception:
        return dict(crash=traceback.format_exc())


def _work(args):
    i, name, script = args
    return i, _record((name, script))


def record_all(name, scripts, procs=8, budget=240):
    """Traces of the scripts (None for those there was no time for).

    Stops early when enough runs did not even come to an end."""
    import multiprocessing
    import time
    if len(scripts) < 4:
        return [_record((name, s)) for s in scripts]
    out, stuck, end = [None] * len(scripts), 0, time.time() + budget
    with multiprocessing.get_context("fork").Pool(procs) as pool:
        it = pool.imap_unordered(_work, [(i, name, s) for i, s in enumerate(scripts)],
                                 chunksize=1)
        for _ in scripts:
            try:
                i, t = it.next(max(1, end - time.time()))
            except multiprocessing.TimeoutError:
                break
            out[i] = t
            if "crash" in t or any(e["ev"] == "hang" for e in t["ev"]):
                stuck += 1
                if stuck >= 24:
                    break
        pool.terminate()
    return out


def validate(domain, traces):
    """Verdicts per trace; crashed recordings get the verdict '*'."""
    from harness import tlc
    good = [(i, t) for i, t in enumerate(traces) if "crash" not in t]
    out = [None] * len(traces)
    g = d = 0
    if good:
        v, g, d = tlc.check_traces(domain.trace_module, [t for _, t in good],
                                   jvms=domain.jvms)
        for (i, _), b in zip(good, v):
            out[i] = b
    for i, t in enumerate(traces):
        if out[i] is None:
            out[i] = [(0, "*", "crash: " + t["crash"][-400:])]
    return out, g, d


def load_known():
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path))["findings"]]


def is_known(known, prop, domain, script, trace, bad):
    """The finding that explains all of these failing clauses, if any."""
    from harness import domains
    for k in known:
        if k["property"] == prop and k["domain"] == domain.name:
            if domain.matches(k, script, trace, bad):
                return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--domain")
    a = ap.parse_args()
    reexec()
    import time
    start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    from harness import domains, tlc

    if a.replay:
        r = json.load(open(a.replay))
        dom = domains.DOMAINS[r["domain"]]
        traces = [_record((dom.name, r["script"]))]
        v, _, _ = validate(dom, traces)
        for i, e in enumerate(traces[0].get("ev", []), 1):
            print(i, json.dumps(e))
        for l, p, c in v[0]:
            print("event %d: %s %s" % (l, p, c))
        bad = [b for b in v[0] if b[1] in (r["property"], "*")]
        if bad:
            print("VIOLATION property=%s replay=%s" % (r["property"], a.replay))
        sys.exit(1 if bad else 0)

    prop, tier = a.property, a.tier
    os.environ["VERIF_TIER"] = tier
    known = load_known()
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0,
               trace_events=0, model=[], behaviours_generated=0, samples=[])
    broken, seen_known = [], collections.OrderedDict()
    doms = [d for d in domains.DOMAINS.values() if prop in d.props
            and (not a.domain or d.name == a.domain)]
    if not doms:
        sys.exit("no domain decides %s" % prop)
    assumptions = []
    for dom in doms:
        for m in dom.models(tier, prop):
            r = tlc.model_check(m["module"], m["cfg"], workers=8,
                                timeout=m.get("timeout", 300))
            if not r["ok"] and r["rc"] != -1:       # -1: out of time
                sys.stderr.write(r["out"][-4000:])
                sys.exit("the model %s does not satisfy its properties" % m["cfg"])
            if not r["ok"]:
                import re
                n = re.findall(r"([\d,]+) states generated \([^)]*\), ([\d,]+) distinct", r["out"])
                if n:
                    r["generated"], r["distinct"] = [int(x.replace(",", "")) for x in n[-1]]
            cov["states"] += r["distinct"]
            cov["transitions"] += r["generated"]
            cov["model"].append(dict(module=m["module"], cfg=m["cfg"],
                                     distinct=r["distinct"], exhaustive=r["ok"],
                                     invariants=m.get("what", "")))
        scripts = dom.scripts(tier, seed, prop)
        cov["behaviours_generated"] += len(scripts)
        traces = record_all(dom.name, scripts, budget=240 if tier == "quick" else 3000)
        scripts = [s for s, t in zip(scripts, traces) if t is not None]
        traces = [t for t in traces if t is not None]
        verdicts, g, d = validate(dom, traces)
        cov["states"] += d
        cov["transitions"] += g
        cov["traces_validated_against_impl"] += len(traces)
        cov["trace_events"] += sum(len(t.get("ev", ())) for t in traces)
        cov.setdefault("events", {})
        for t in traces:
            for e in t.get("ev", ()):
                cov["events"][e["ev"]] = cov["events"].get(e["ev"], 0) + 1
        step = max(1, len(scripts) // 2)
        for i in range(0, len(scripts), step):
            cov["samples"].append(dict(domain=dom.name, script=scripts[i],
                                       events=traces[i].get("ev", [])[:40]))
        for s, t, v in zip(scripts, traces, verdicts):
            bad = [b for b in v if b[1] in (prop, "*")]
            if not bad:
                continue
            k = is_known(known, prop, dom, s, t, bad)
            if k is not None:
                seen_known.setdefault(k["id"], k)
            else:
                broken.append((dom, s, t, bad))
        assumptions += dom.assumptions
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))

    if broken:
        broken.sort(key=lambda x: len(json.dumps(x[1])))
        dom, s, t, bad = broken[0]
        os.makedirs(os.path.join(HERE, ".work"), exist_ok=True)
        path = os.path.join(HERE, ".work", "replay-%s.json" % prop)
        with open(path, "w") as f:
            json.dump(dict(property=prop, domain=dom.name, script=s, bad=bad,
                           trace=t), f, indent=1)
        names = collections.Counter((d.name, b[2][:60]) for d, _, _, bs in broken for b in bs)
        for (d, c), n in names.most_common(12):
            print("%s: clause %s fails (%d times)" % (d, c, n))
        print("smallest: event %d, %s" % (bad[0][0], bad[0][2]))
        print("VIOLATION property=%s replay=%s" % (prop, path))

    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=cov, assumptions=sorted(set(assumptions)),
              wall_s=round(time.time() - start, 2), violations=len(broken))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d model states, %d behaviours of the real code validated, "
          "%d violations, %.1fs" % (prop, tier, cov["states"],
                                    cov["traces_validated_against_impl"],
                                    len(broken), time.time() - start))
    sys.exit(1 if broken else 0)


if __name__ == "__main__":
    main()
