"""Common machinery of all checks: seeds, drivers, TLC runs, verdicts, evidence.

A check (harness/cNN.py) defines
    PROPERTY, LEVEL, and run(ctx)
and uses the Context for everything that leaves the process.
"""
import importlib
import json
import multiprocessing
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = ("/opt/veriftools/tla/tla2tools.jar:"
        "/opt/veriftools/tla/CommunityModules-deps.jar")
NCPU = min(8, os.cpu_count() or 1)
MEMLIMIT = 6 << 30


class MachineryError(Exception):
    """The check itself failed (exit 2)."""


class CaseTimeout(BaseException):
    """A single case used too much CPU time (non-termination)."""


def _alarm(signum, frame):
    raise CaseTimeout()


class cpu_limit:
    """CPU-time limit for calls into the library."""

    def __init__(self, secs):
        self.secs = secs

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.secs)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return False


def in_library(tb):
    """Does a traceback pass through the library under test?"""
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/yangson/"):
            return True
        tb = tb.tb_next
    return False


def _work(args):
    modname, fname, seed, payload = args
    sys.setrecursionlimit(5000)
    resource.setrlimit(resource.RLIMIT_AS, (MEMLIMIT, resource.getrlimit(resource.RLIMIT_AS)[1]))
    mod = importlib.import_module(modname)
    t0 = time.process_time()
    try:
        with cpu_limit(getattr(mod, "CASE_CPU", 100)):
            res = getattr(mod, fname)(random.Random(seed), payload)
        return ("ok", seed, res)
    except CaseTimeout:
        return ("viol", seed, {"clause": "no-termination",
                               "detail": traceback.format_exc()[-3000:],
                               "cpu_s": time.process_time() - t0})
    except (KeyboardInterrupt, MachineryError):
        return ("err", seed, traceback.format_exc())
    except BaseException as e:
        text = traceback.format_exc()
        lib = in_library(e.__traceback__)
        if isinstance(e, MemoryError) and not lib:
            return ("err", seed, text)
        # either the library raised what it must not raise, or what it returned
        # is of a shape that no specified result has
        return ("viol", seed, {"clause": "unexpected-exception" if lib else "uninterpretable-result",
                               "detail": text[-3000:]})


def bmp(text):
    """JSON text with characters beyond the BMP (two characters for TLC) replaced by
    characters from the private use area."""
    return re.sub(r"\\ud[89ab](..)\\ud[c-f](..)",
                  lambda m: f"\\u{0xe000 + (int(m[1], 16) * 0x400 + (int(m[2], 16))) % 0x1900:04x}", text)


class Context:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.outdir = os.path.join(VERIF, "evidence", "replay", prop)
        if os.path.isdir(self.outdir):
            shutil.rmtree(self.outdir)
        self.violations = []
        self.known_hit = {}
        self.coverage = {"states": 0, "transitions": 0,
                         "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            with open(kf) as f:
                self.known = [k for k in json.load(f)["findings"]
                              if k["property"] == prop]

    # -- random -------------------------------------------------------------
    def rng(self, *key):
        return random.Random(f"{self.prop}/{self.seed}/" + "/".join(map(str, key)))

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- drivers ------------------------------------------------------------
    def drive(self, modname, fname, njobs, payload=None, label=""):
        """Run `fname(rng, payload)` of a driver module in parallel processes.

        Returns the list of results; exceptions that pass through the library
        and were not expected by the driver are violations."""
        return self._jobs([(modname, fname, f"{self.prop}/{self.seed}/{label}{fname}/{i}",
                            payload) for i in range(njobs)])

    def drive_parts(self, modname, fname, payloads):
        """Like drive, with one job per payload."""
        return self._jobs([(modname, fname, f"{self.prop}/{self.seed}/{fname}/{i}", p)
                           for i, p in enumerate(payloads)])

    def _jobs(self, jobs):
        res = []
        with multiprocessing.get_context("fork").Pool(NCPU, maxtasksperchild=None) as pool:
            it = pool.imap_unordered(_work, jobs, chunksize=1)
            done = {}
            hung = 0
            for st, seed, r in it:
                done[seed] = (st, r)
                hung += st == "viol" and r["clause"] == "no-termination"
                if hung >= 4:       # enough; the others may well take as long
                    pool.terminate()
                    break
        for j in jobs:
            if j[2] not in done:
                continue
            st, r = done[j[2]]
            if st == "ok":
                res.append(r)
            elif st == "viol":
                self.violation(r["clause"], {"driver": j[0] + "." + j[1],
                                             "seed": j[2], **r})
            else:
                raise MachineryError(r)
        return res

    # -- verdicts -----------------------------------------------------------
    def violation(self, clause, data, key=None):
        if key is not None:
            for k in self.known:
                if k["key"] == key:
                    self.known_hit.setdefault(key, k)
                    return
        n = len(self.violations)
        os.makedirs(self.outdir, exist_ok=True)
        path = os.path.join(self.outdir, f"{n:03d}.json")
        if n < 20:
            with open(path, "w") as f:
                json.dump({"property": self.prop, "clause": clause,
                           "tier": self.tier, "seed": self.seed, **data}, f,
                          indent=1, default=str)
        self.violations.append((clause, path))
        if n < 5:
            print(f"  clause={clause} " + json.dumps(data, default=str)[:1500])

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, int) and not isinstance(v, bool):
                self.coverage[k] = self.coverage.get(k, 0) + v
            else:
                self.coverage[k] = v

    def sample(self, x, limit=4):
        if len(self.coverage["samples"]) < limit:
            s = json.dumps(x, default=str)
            self.coverage["samples"].append(x if len(s) < 4000 else s[:4000])

    # -- TLC ----------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, args=(), timeout=800,
            heap="3g", expect_ok=False):
        """Run TLC; returns (output, info)."""
        wd = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Djava.io.tmpdir=" + wd, f"-Xmx{heap}", "-Xss512m", "-XX:+UseParallelGC",
               "-XX:ParallelGCThreads=2", "-Dfile.encoding=UTF-8",
               "-XX:TieredStopAtLevel=4",
               "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(wd, "m"),
               "-noGenerateSpecTE", "-nowarning", "-config", os.path.join(SPEC, cfg), *args,
               os.path.join(SPEC, module + ".tla")]
        p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
        shutil.rmtree(wd, ignore_errors=True)
        info = {"rc": p.returncode, "generated": 0, "distinct": 0}
        m = re.search(r"(\d+) states generated, (\d+) distinct states", out)
        if m:
            info["generated"], info["distinct"] = int(m[1]), int(m[2])
        info["ok"] = ("Model checking completed. No error has been found" in out
                      or "Finished in" in out and p.returncode == 0)
        if expect_ok and not info["ok"]:
            raise MachineryError(f"TLC failed on {module}/{cfg}:\n{out[-3000:]}")
        return out, info

    def model_check(self, module, cfg, workers=NCPU, args=(), timeout=800,
                    heap="6g", env=None):
        """Exhaustive model check of the specification itself."""
        out, info = self.tlc(module, cfg, workers=workers, args=args,
                             timeout=timeout, heap=heap, env=env)
        if not info["ok"]:
            raise MachineryError(
                f"specification {module}/{cfg} does not satisfy its properties:\n{out[-4000:]}")
        self.add(states=info["distinct"], transitions=info["generated"])
        self.coverage.setdefault("model_checks", []).append(
            {"module": module, "cfg": cfg, "states": info["distinct"],
             "transitions": info["generated"]})
        return out

    def judge(self, module, events, cfg=None, shards=None, timeout=800,
              keyf=None, init_env=None, group=None):
        """Let TLC judge a list of recorded events with trace specification
        `module`.  Every failing event becomes a violation.

        group: events of one group (same value of group(e)) stay together and
        in order (stateful traces)."""
        if not events:
            raise MachineryError("no events to judge")
        cfg = cfg or module + ".cfg"
        shards = shards or max(1, min(NCPU, len(events) // 40 + 1))
        parts = [[] for _ in range(shards)]
        weights = [0] * shards
        if group is None:
            for i, ev in enumerate(events):
                parts[i % shards].append(ev)
        else:
            cur, tgt = object(), 0
            for ev in events:
                g = group(ev)
                if g != cur:
                    cur = g
                    tgt = weights.index(min(weights))
                parts[tgt].append(ev)
                weights[tgt] += 1
        parts = [p for p in parts if p]
        procs = []
        for k, part in enumerate(parts):
            path = os.path.join(self.scratch, f"{module}-{k}.ndjson")
            with open(path, "w") as f:
                for ev in part:
                    f.write(bmp(json.dumps(ev)) + "\n")
            procs.append((part, path))
        from concurrent.futures import ThreadPoolExecutor
        nfail = 0

        def one(pp):
            part, path = pp
            try:
                return self.tlc(module, cfg, env={"TRACE": path, **(init_env or {})},
                                timeout=timeout)
            except subprocess.TimeoutExpired:
                raise MachineryError(f"TLC timeout on {module}")
        with ThreadPoolExecutor(NCPU) as ex:
            results = list(ex.map(one, procs))
        failures = []
        for (part, path), (out, info) in zip(procs, results):
            done = "Model checking completed. No error has been found" in out
            fails = parse_fails(out)
            if not done:
                if "Error: Parsing or semantic analysis failed" in out or not re.search(
                        r"Computing initial states|Finished computing initial states", out):
                    raise MachineryError(out[-4000:])
                if "OutOfMemory" in out or "StackOverflow" in out:
                    raise MachineryError(out[-4000:])
                at = self._find_error_event(out, part)
                fails.append((at, ["spec-cannot-explain"], out[-2500:]))
            else:
                # one state per event plus the initial one
                if info["distinct"] != len(part) + 1:
                    raise MachineryError(
                        f"{module}: {info['distinct']} states for {len(part)} events\n{out[-2000:]}")
            for item in fails:
                idx, clauses = item[0], item[1]
                ev = part[idx - 1] if 0 < idx <= len(part) else {}
                ctx = {}        # state-setting events before the failing one
                if group is not None and ev:
                    for b in part[:idx - 1]:
                        if b["op"] in ("load", "tree", "step") and group(b) == group(ev):
                            ctx[b["op"]] = b
                failures.append((clauses, ev, item[2] if len(item) > 2 else None, list(ctx.values())))
            self.add(states=info["distinct"], transitions=info["generated"])
        for clauses, ev, detail, ctx in failures:
            key = keyf(clauses, ev) if keyf else None
            nfail += 1
            self.violation(",".join(clauses), {"event": ev, "detail": detail, "context": ctx}, key)
        self.add(traces_validated_against_impl=len(events))
        return failures

    @staticmethod
    def _find_error_event(out, part):
        ms = re.findall(r"\bl = (\d+)", out)
        return int(ms[-1]) if ms else 0

    # -- end ----------------------------------------------------------------
    def finish(self, level):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": level, "coverage": self.coverage,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for k in self.known_hit.values():
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        if self.violations:
            seen = set()
            for clause, path in self.violations[:3]:
                print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"{self.prop}: held on everything explored "
              f"({self.coverage.get('traces_validated_against_impl')} events, "
              f"{self.coverage.get('states')} states, {ev['wall_s']} s)")
        return 0


def parse_fails(out):
    """Lines printed by the trace specifications: "@@FAIL {json}"."""
    res = []
    for line in out.splitlines():
        if line.startswith('"@@FAIL '):
            try:
                txt = json.loads(line)
            except ValueError:
                txt = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
            try:
                d = json.loads(txt[7:])
                res.append((d["l"], sorted(d["c"])))
            except ValueError:
                m = re.search(r'"l":(\d+)', txt)
                res.append((int(m[1]) if m else 0, [txt[:2000]]))
    return res


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--thorough" in argv:
        tier = "thorough"
    mod = importlib.import_module("c" + prop[1:])
    ctx = Context(prop, tier, seed)
    try:
        mod.run(ctx)
        return ctx.finish(mod.LEVEL)
    except MachineryError as e:
        print("MACHINERY ERROR:", e)
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        if ctx.violations:
            return ctx.finish(mod.LEVEL)
        return 2
    except BaseException as e:
        text = traceback.format_exc()
        if in_library(e.__traceback__) or ctx.violations:
            ctx.violation("unexpected-exception", {"detail": text})
            return ctx.finish(mod.LEVEL)
        print("MACHINERY ERROR:", text)
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        return 2
