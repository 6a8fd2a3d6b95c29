#!/usr/bin/env python3
"""tools/mkplant.py: helper to write seeded/<id>/ from a replacement spec.
   mk(id, prop, needs, breaks, [(file, old, new)...], demo_py)"""
import json, os, re, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mk(id_, prop, needs, breaks, reps, demo, count=1):
    d = os.path.join(HERE, "seeded", id_)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mk-")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
        for f, a, b in reps:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(a) == 1, (id_, f, a, s.count(a))
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
        zero = subprocess.run(["git", "-C", w, "diff", "-U0"], capture_output=True, text=True).stdout
        base = subprocess.run(["git", "-C", w, "rev-list", "--max-parents=0", "HEAD"],
                              capture_output=True, text=True).stdout.strip()
        f, orig = None, []
        for ln in zero.splitlines():
            if ln.startswith("--- a/"):
                f = ln[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))?", ln)
            if m:
                a, n = int(m.group(1)), int(m.group(2) or 1)
                if n:
                    bl = subprocess.run(["git", "-C", w, "blame", "-l", "-s", "-L%d,+%d" % (a, n), "HEAD", "--", f],
                                        capture_output=True, text=True).stdout
                    orig += [x.lstrip("^").startswith(base[:20]) for x in bl.splitlines()]
        if not orig or not all(orig):
            print("%s: %d of %d replaced lines are not original" % (id_, orig.count(False), len(orig)))
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, "demo.py"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\n'
        'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    open(os.path.join(d, "meta.json"), "w").write(json.dumps(
        {"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")


PRE = '''import json, os, shutil, tempfile
from yangson import DataModel
from yangson.enumerations import ContentType, ValidationScope
from yangson.exceptions import *


def model(extra="", **mods):
    """Data model from module bodies (m1="...")."""
    d = tempfile.mkdtemp()
    try:
        lib = []
        for m, body in mods.items():
            with open(os.path.join(d, m + "@2024-01-01.yang"), "w") as f:
                f.write('module %s { yang-version 1.1; namespace "urn:%s"; prefix %s; %s revision 2024-01-01; %s }'
                        % (m, m, m, "".join("import %s { prefix %s; } " % (o, o) for o in list(mods)[:list(mods).index(m)]), body))
            lib.append({"name": m, "revision": "2024-01-01", "namespace": "urn:" + m, "conformance-type": "implement"})
        return DataModel(json.dumps({"ietf-yang-library:modules-state": {"module-set-id": "x", "module": lib}}), (d,))
    finally:
        shutil.rmtree(d)


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return [plain(x) for x in v] if isinstance(v, list) else v

'''
