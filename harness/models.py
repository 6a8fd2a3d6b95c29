"""Loading of module texts as data models."""
import json
import os
import shutil
import tempfile

from yangson import DataModel

REV = "2024-01-01"


def header(name, prefix, body, imports=(), includes=(), version="1.1"):
    """Module text; imports: (module, prefix) pairs."""
    t = [f"module {name} {{", f"  yang-version {version};", f'  namespace "urn:{name}";', f"  prefix {prefix};"]
    t += [f"  import {m} {{ prefix {p}; }}" for m, p in imports]
    t += [f"  include {m};" for m in includes]
    t += [f"  revision {REV};", *("  " + x for x in body), "}"]
    return "\n".join(t) + "\n"


def library(names, features=None, submodules=None, imports=(), deviations=None):
    features = features or {}
    res = []
    for m in names:
        e = {"name": m, "revision": REV, "namespace": f"urn:{m}",
             "conformance-type": "import" if m in imports else "implement"}
        if features.get(m):
            e["feature"] = list(features[m])
        if submodules and submodules.get(m):
            e["submodule"] = [{"name": s, "revision": REV} for s in submodules[m]]
        res.append(e)
    return {"ietf-yang-library:modules-state": {"module-set-id": "x", "module": res}}


def load(texts, features=None, submodules=None, imports=(), order=None):
    """Data model of {module name: text}; submodule texts are included in texts."""
    subs = {s for x in (submodules or {}).values() for s in x}
    d = tempfile.mkdtemp(prefix="yg-")
    try:
        for m, t in texts.items():
            with open(os.path.join(d, f"{m}@{REV}.yang"), "w", encoding="utf-8") as f:
                f.write(t)
        names = [m for m in (order or texts) if m not in subs]
        return DataModel(json.dumps(library(names, features, submodules, imports)), (d,))
    finally:
        shutil.rmtree(d, ignore_errors=True)
