#!/usr/bin/env python3
"""
Work on planted bugs: tools/bug.py ID... [--check PROP ...] | all

For every seeded/ID: applies patch.diff to a scratch copy of /repo, runs the stable tests, the demonstration
with and without the patch, and the check of its property against the copy.  /repo itself is not touched.
"""
import json, os, shutil, subprocess, sys, tempfile, time
import xml.etree.ElementTree as ET

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--reverse"], capture_output=True, text=True).stdout.split()[0]


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True,
                          timeout=timeout, shell=isinstance(cmd, str))


def original_lines(patch):
    """does it change lines of the base commit?"""
    out, f, base = [], None, []
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            base = subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{f}"], capture_output=True, text=True).stdout.split("\n")
        elif l.startswith("-") and not l.startswith("---"):
            out.append((l[1:] in base, l))
    return out


def tests(copy):
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    ok = set()
    for i, args in enumerate((["--ignore=tests/test_server.py"], ["tests/test_server.py"])):
        x = os.path.join(copy, f"r{i}.xml")
        sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=120", "--continue-on-collection-errors",
            "--doctest-modules", "-o", "junit_family=xunit2", "--junitxml=" + x, *args], copy,
           {"PYTHONPATH": copy, "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"})
        for c in ET.parse(x).iter("testcase"):
            if not list(c.iter("failure")) and not list(c.iter("error")) and not list(c.iter("skipped")):
                ok.add(c.get("classname") + "::" + c.get("name"))
    return sorted(want - ok)


def demo(copy, d):
    with tempfile.TemporaryDirectory(prefix="demo_") as t:
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(d, f), t)
        r = sh(["bash", os.path.join(t, "demo.sh")], copy, {"PYTHONPATH": copy}, timeout=300)
    return r


def run(bug, checks=None, skip_tests=False):
    d = os.path.join(V, "seeded", bug)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp = tempfile.mkdtemp(prefix=f"bug_{bug}_")
    copy = os.path.join(tmp, "repo")
    shutil.copytree("/repo", copy, ignore=shutil.ignore_patterns(".git", "__pycache__"), symlinks=True)
    res = {}
    try:
        if not skip_tests:
            r = demo(copy, d)
            res["demo clean"] = "ok" if r.returncode == 0 else "BAD " + (r.stdout + r.stderr)[-1500:]
        r = sh(["git", "apply", "--unsafe-paths", "--directory=" + copy, os.path.join(d, "patch.diff")], "/")
        if r.returncode:
            r = sh(f"patch -p1 < {d}/patch.diff", copy)
        if r.returncode:
            return {"apply": r.stdout + r.stderr}
        o = original_lines(open(os.path.join(d, "patch.diff")).read())
        res["original"] = "ok" if any(k for k, _ in o) and True else f"BAD no original line removed {o}"
        if any(not k for k, _ in o):
            res["original"] += " (also touches own lines: %s)" % [l for k, l in o if not k]
        if not skip_tests:
            bad = tests(copy)
            res["tests"] = "ok" if not bad else f"BAD {bad}"
            r = demo(copy, d)
            res["demo bug"] = "ok" if r.returncode else "BAD exit 0: " + (r.stdout + r.stderr)[-800:]
        for p in checks or [meta["property"]]:
            t = time.time()
            r = sh([os.path.join(V, "bin", "check"), p, "quick"], V, {"VERIF_DEV_REPO": copy, "VERIF_SEED": "1", "PYTHONHASHSEED": "0"})
            hit = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
            res[p] = ("caught" if hit else f"MISSED rc={r.returncode} ") + f" {time.time()-t:.0f}s " + \
                " ".join(l.strip() for l in r.stdout.splitlines() if "clause" in l)[:300] + ("" if hit else r.stderr[-600:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return res


if __name__ == "__main__":
    args = sys.argv[1:]
    skip = "--skip-tests" in args
    args = [a for a in args if a != "--skip-tests"]
    checks = None
    if "--check" in args:
        i = args.index("--check")
        checks, args = args[i + 1:], args[:i]
    for b in (sorted(os.listdir(os.path.join(V, "seeded"))) if args == ["all"] else args):
        print(b, json.dumps(run(b, checks, skip), indent=1), flush=True)
