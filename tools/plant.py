"""Plants the bugs of tools/bugs*.py: writes seeded/<id>/ from their edits, and tries them.

plant.py ID...        write and validate (scratch copy: stable tests, demo with and without), then run the check on it
plant.py --nocheck ID...  only write and validate
plant.py --check ID   only run the property's check (quick) against the planted copy
"""
import difflib
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def bugs():
    out = {}
    for f in sorted(glob.glob(os.path.join(V, "tools", "bugs*.py"))):
        spec = importlib.util.spec_from_file_location("b", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out


def write(b):
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(os.path.join(d, "mc"), exist_ok=True)
    for n in ("op.py", "clock.py", "keys.py", "keys.json"):
        shutil.copy(os.path.join(V, "mc", n), os.path.join(d, "mc", n))
    open(os.path.join(d, "mc", "__init__.py"), "w").close()
    by = {}
    for f, old, new in b["edits"]:
        by.setdefault(f, []).append((old, new))
    diff = ""
    for f, ed in by.items():
        src = open(os.path.join("/repo", f)).read()
        s = src
        for old, new in ed:
            if s.count(old) != 1:
                raise SystemExit(f"{b['id']}: {s.count(old)} occurrences in {f}: {old[:80]!r}")
            s = s.replace(old, new)
        diff += "".join(difflib.unified_diff(src.splitlines(True), s.splitlines(True), "a/" + f, "b/" + f))
    with open(os.path.join(d, "patch.diff"), "w") as f:
        f.write(diff)
    with open(os.path.join(d, "demo.py"), "w") as f:
        f.write("from mc.op import *\n\n" + b["demo"].strip("\n") + "\n\nprint('as it should be')\n")
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
    return d


def copy(b, d):
    w = f"/tmp/plant_{b['id']}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    subprocess.run(["git", "-C", w, "apply", os.path.join(d, "patch.diff")], check=True)
    return w


def demo(d, src):
    e = dict(os.environ, VERIF_REPO_SRC=src)
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo", env=e, capture_output=True, text=True)


def tests(w):
    e = dict(os.environ, PYTHONPATH=w + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    x = w + ".xml"
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-o", "junit_family=xunit2",
                    "--junitxml=" + x, "tests"], cwd=w, env=e, capture_output=True)
    bad, n = [], 0
    for c in ET.parse(x).getroot().iter("testcase"):
        n += 1
        if c.find("failure") is not None or c.find("error") is not None:
            bad.append(c.get("classname") + "::" + c.get("name"))
    os.unlink(x)
    return n, bad


def check(b, w):
    e = dict(os.environ, VERIF_REPO_SRC=w + "/src")
    r = subprocess.run([os.path.join(V, "check"), b["prop"]], cwd=V, env=e, capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return r.returncode, bool(v), "\n".join(r.stdout.splitlines()[:3])[:600]


if __name__ == "__main__":
    args = sys.argv[1:]
    only = "--check" in args
    nocheck = "--nocheck" in args
    args = [a for a in args if not a.startswith("--")]
    B = bugs()
    for i in args or sorted(B):
        b = B[i]
        d = write(b)
        w = copy(b, d)
        try:
            if not only:
                r0, r1 = demo(d, "/repo/src"), demo(d, w + "/src")
                n, bad = tests(w)
                ok = r0.returncode == 0 and r1.returncode != 0 and n >= 502 and not bad
                print(i, "VALID" if ok else "INVALID", "demo", r0.returncode, r1.returncode, "tests", n, bad[:5], flush=True)
                if not ok:
                    print(r0.stdout[-500:], r0.stderr[-1500:], "\nPATCHED:", r1.stdout[-300:], r1.stderr[-300:])
                else:
                    print("   ", r1.stderr.strip().splitlines()[-1:] )
            if nocheck:
                continue
            c = check(b, w)
            print(i, "CAUGHT" if c[0] == 1 and c[1] else "MISSED", c[0], c[2], flush=True)
        finally:
            shutil.rmtree(w, ignore_errors=True)
            shutil.rmtree(d + "/mc/__pycache__", ignore_errors=True)
