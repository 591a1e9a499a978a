"""Builds and confirms planted bugs: tools/seed.py [id ...]

Each tools/seeds/*.py holds SEEDS, a list of dicts: id, property, needs,
what_it_breaks, edits [(file, old, new)], demo (python source).  The demo gets
copies of the harness' network (package kit) beside it.
"""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
# run with cwd /repo; exit 0 when the property holds here
d="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 KIEL_REPO="$PWD" PYTHONPATH="$d"
export PYTHONPYCACHEPREFIX="$(mktemp -d)"
timeout 120 /opt/venv/bin/python "$d/demo.py"
rc=$?
rm -rf "$PYTHONPYCACHEPREFIX"
exit $rc
"""
KIT = ["__init__", "wire", "simnet", "env"]


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def main():
    want = set(sys.argv[1:])
    seeds = []
    for f in sorted(glob.glob(os.path.join(HERE, "tools", "seeds", "*.py"))):
        seeds += runpy.run_path(f)["SEEDS"]
    base = json.load(open("/opt/vp/BASELINE.json"))
    for s in seeds:
        if want and s["id"] not in want:
            continue
        d = os.path.join(HERE, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/kit")
        for k in KIT + s.get("kit", []):
            shutil.copy(os.path.join(HERE, "harness", k + ".py"), d + "/kit/")
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")},
                  open(d + "/meta.json", "w"), indent=1)
        w = tempfile.mkdtemp(prefix="seed")
        try:
            sh("git clone -q /repo %s/r" % w, "/")
            r = w + "/r"
            before = sh("bash %s/demo.sh" % d, r)
            for f, old, new in s["edits"]:
                t = open(r + "/" + f).read()
                if t.count(old) != 1:
                    print(s["id"], "EDIT DOES NOT APPLY", f, t.count(old))
                    raise SystemExit(1)
                open(r + "/" + f, "w").write(t.replace(old, new))
            diff = sh("git diff", r).stdout
            open(d + "/patch.diff", "w").write(diff)
            after = sh("bash %s/demo.sh" % d, r)
            plug = open("/opt/vp/plugins/vp_async_name.py").read()
            open(w + "/vp_async_name.py", "w").write(plug.replace('"/repo/tests/"', repr(r + "/tests/")))
            tests = sh("PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=%s:%s "
                       "/opt/venv/bin/python -m pytest -q -p vp_async_name -p no:cacheprovider "
                       "--timeout=120 --continue-on-collection-errors --disable-pytest-warnings tests 2>&1 | tail -15" % (w, r), r)
            blame = "ours" if any_ours(diff, r) else "original"
        finally:
            shutil.rmtree(w, ignore_errors=True)
        last = [l for l in tests.stdout.splitlines() if "passed" in l or "failed" in l]
        ok = before.returncode == 0 and after.returncode not in (0, 124) and \
            "108 passed" in "".join(last)
        print("%-28s %s demo %d/%d lines %s tests: %s" % (
            s["id"], "OK " if ok else "BAD", before.returncode, after.returncode,
            blame, " ".join(last).strip("= ")))
        if not ok:
            print(before.stdout[-1500:], after.stdout[-800:], tests.stdout[-800:])


def any_ours(diff, repo):
    """True when a removed line was added by one of our own commits."""
    base = sh("git rev-list --max-parents=0 HEAD", repo).stdout.strip()
    f = None
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            orig = sh("git show %s:%s" % (base, f), repo).stdout.splitlines()
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip():
            if l[1:] not in orig:
                return True
    return False


main()
