# -*- coding: utf-8 -*-
"""Drives the property checks: Hypothesis generates and shrinks cases, a worker process
runs them against /repo's gsapi, a facet's oracle judges what the worker observed."""
import ctypes
import hashlib
import importlib
import json
import multiprocessing
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

import warnings

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

import codec

warnings.filterwarnings('ignore', category=hypothesis.errors.HypothesisWarning)

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN_FILE = os.path.join(VERIF, "known_findings.json")
NSHARDS = int(os.environ.get("VERIF_SHARDS", "0")) or max(1, min(8, os.cpu_count() or 4))


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class WorkerGone(Exception):
    """The worker died or did not answer in time."""


class StopSearch(BaseException):
    pass


def fail(fmt, *args):
    raise Violation(fmt % args if args else fmt)


def require(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


class Facet:
    """One executable statement of (part of) a property.

    strategy   Hypothesis strategy of cases (plain data)
    op         probe p_<op> of the property's probe module; obs = probe(case)
    check      check(case, obs) raises Violation when the observation breaks the property
    nontrivial nontrivial(case, obs) -> bool, by the rule in `rule`
    quick/thorough   number of cases over all shards
    on_exc     on_exc(case, exc dict): called when gsapi raised; default: Violation
    """

    def __init__(self, name, strategy, op, check, nontrivial=None, quick=2000, thorough=None,
                 rule="", on_exc=None, examples=()):
        self.name, self.strategy, self.op, self.check = name, strategy, op, check
        self.nontrivial = nontrivial or (lambda c, o: True)
        self.quick, self.thorough = quick, thorough or quick * 10
        self.rule, self.on_exc, self.examples = rule, on_exc, list(examples)


def die_with_parent():
    """a worker that loops for ever does not outlive a check that was killed"""
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except (OSError, AttributeError):
        pass


NOMEMORY = ("OutOfMemoryError", "MemoryError")


class Worker:
    heap = "768m"

    def __init__(self, probes, runtime, scratch):
        self.probes, self.runtime, self.scratch = probes, runtime, scratch
        self.proc = None
        self.history = []

    def start(self):
        env = dict(os.environ)
        env.update(VERIF_REPO=REPO, VERIF_SCRATCH=self.scratch, PYTHONHASHSEED="0",
                   PYTHONDONTWRITEBYTECODE="1", TMPDIR=self.scratch)
        env.pop("PYTHONPATH", None)
        if self.runtime == "jython":
            opts = "-Xmx" + self.heap + " -Xss4m -XX:+UseSerialGC -XX:-UsePerfData"
            if os.environ.get("VERIF_JIT") != "full":
                opts += " -XX:TieredStopAtLevel=1"
            env["JAVA_TOOL_OPTIONS"] = opts
            cmd = ["jython", "-B", os.path.join(HERE, "worker.py"), self.probes]
        else:
            cmd = [sys.executable, "-B", os.path.join(HERE, "worker.py"), self.probes]
        self.proc = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL, env=env, cwd=self.scratch,
                                     start_new_session=True, preexec_fn=die_with_parent)
        self.buf = b""
        self.history = []
        hello = self._readline(180)
        if "ready" not in hello:
            raise HarnessError("worker did not start: %s" % (hello,))

    def _readline(self, timeout):
        end = time.monotonic() + timeout
        fd = self.proc.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                self.stop()
                raise WorkerGone("no answer within %d s" % timeout)
            r, _, _ = select.select([fd], [], [], min(left, 1.0))
            if r:
                chunk = os.read(fd, 1 << 16)
                if not chunk:
                    rc = self.proc.wait()
                    self.stop()
                    raise WorkerGone("worker died (status %s)" % rc)
                self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def call(self, op, case, timeout=60):
        reply = self.send(op, case, timeout)
        if reply.get("exc") in NOMEMORY and self.runtime == "jython":
            # a worker that is full says nothing about gsapi: once more in a fresh one with room
            self.stop()
            self.heap = "4g"
            try:
                reply = self.send(op, case, timeout)
            finally:
                self.heap = Worker.heap
                self.stop()
        return reply

    def send(self, op, case, timeout):
        if self.proc is None:
            self.start()
        text = '{"op":%s,"case":%s}\n' % (json.dumps(op), codec.dumps(case))
        self.history.append((op, case))
        try:
            self.proc.stdin.write(text.encode())
            self.proc.stdin.flush()
        except BrokenPipeError:
            self.stop()
            raise WorkerGone("worker died")
        return self._readline(timeout)

    def stop(self):
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.proc.wait()
            for p in (self.proc.stdin, self.proc.stdout):
                try:
                    p.close()
                except OSError:
                    pass
            self.proc = None


def judge(facet, case, reply):
    """Raises Violation, or returns the observation; None: the harness had no room for it."""
    if "ok" in reply:
        obs = codec.dec(reply["ok"])
        try:
            facet.check(case, obs)
        except Violation:
            raise
        except Exception as e:
            # never on the unchanged tree: the code gave something of another shape than it should
            raise Violation("unexpected result (%r in the oracle): %s\n%s" % (e, str(obs)[:1500], traceback.format_exc()[-1500:]))
        return obs
    if not reply.get("inside") and reply.get("exc") in NOMEMORY:
        return None
    if not reply.get("inside"):
        raise Violation("unexpected result (%s: %s, outside gsapi)\n%s" % (reply.get("exc"), reply.get("msg"), reply.get("tb")))
    if facet.on_exc is not None:
        facet.on_exc(case, reply)
        return {"exc": reply["exc"]}
    raise Violation("raised %s: %s" % (reply["exc"], reply["msg"]))


class PairWorker:
    """One worker of each interpreter: what one does is set beside what the other does."""

    def __init__(self, probes, scratch):
        self.two = [Worker(probes, k, os.path.join(scratch, k)) for k in ("jython", "cpython")]
        for w in self.two:
            os.makedirs(w.scratch, exist_ok=True)
        self.history = []

    def start(self):
        self.history = []
        for w in self.two:
            w.start()

    def stop(self):
        for w in self.two:
            w.stop()

    def call(self, op, case, timeout=60):
        if self.two[0].proc is None or self.two[1].proc is None:
            self.stop()
            self.start()
        self.history.append((op, case))
        if op != "exchange":
            rs = [w.call(op, case, timeout) for w in self.two]
            for r in rs:
                if "ok" not in r:
                    return r
            return {"ok": {"t": [r["ok"] for r in rs]}}
        # each saves the object, and each loads both files
        out = []
        for w in self.two:
            r = w.call("save", case, timeout)
            if "ok" not in r:
                return r
            saved = codec.dec(r["ok"])
            for v in self.two:
                r = v.call("load", dict(case, bytes=saved["bytes"]), timeout)
                if "ok" not in r:
                    return r
                out.append(r["ok"])
        return {"ok": {"t": out}}


def new_worker(mod, runtime, scratch):
    return PairWorker(mod.PROBES, scratch) if runtime == "pair" else Worker(mod.PROBES, runtime, scratch)


def runtimes(mod, n):
    """The interpreter of each shard.  Most of gsapi runs under Python 2.7 and Python 3: where it does,
    three shards in four are Jython's and as many as half of all are added for CPython 3."""
    if os.environ.get("VERIF_RUNTIME"):
        return [os.environ["VERIF_RUNTIME"]] * n
    if getattr(mod, "RUNTIME", "both") != "both":
        return [mod.RUNTIME] * n
    j = max(1, n * 3 // 4)
    return ["jython"] * j + ["cpython"] * max(1, n // 2)


def run_one(facet, mod, case, timeout=120, history=(), runtime=None):
    """Runs a case in a fresh worker. Returns the violation message or None."""
    scratch = tempfile.mkdtemp(prefix="gsv-")
    w = new_worker(mod, runtime or runtimes(mod, 1)[0], scratch)
    try:
        w.start()
        for op, c in history:
            w.call(op, c, timeout)
        try:
            reply = w.call(facet.op, case, timeout)
        except WorkerGone as e:
            return "did not return: %s" % e
        try:
            judge(facet, case, reply)
            return None
        except Violation as v:
            return str(v)
    finally:
        w.stop()
        shutil.rmtree(scratch, ignore_errors=True)


def case_size(case):
    t = codec.dumps(case)
    return (len(t), t)


class FacetRun:
    def __init__(self, facet, mod, worker, stop_event, end, known, offset, total):
        self.facet, self.mod, self.worker = facet, mod, worker
        self.stop_event, self.end = stop_event, end
        self.known = known
        self.offset, self.total = offset, total
        self.evals = 0
        self.hashes = set()
        self.samples = []
        self.best = None          # (size, case, message)
        self.first_fail_at = None
        self.first_history = None
        self.hang = None
        self.knownhits = {}
        self.truncated = False

    def one(self, case):
        now = time.monotonic()
        if self.best is None:
            if now > self.end:
                self.truncated = True
                raise StopSearch()
            if self.stop_event.is_set():
                self.truncated = True
                raise StopSearch()
        elif now > self.first_fail_at + self.shrink_s:
            raise StopSearch()
        f = self.facet
        try:
            reply = self.worker.call(f.op, case)
        except WorkerGone as e:
            if self.best is not None:
                return       # a shrink candidate that hangs is not the failure being shrunk
            self.hang = (case, str(e))
            raise StopSearch()
        try:
            obs = judge(f, case, reply)
        except Violation as v:
            fid = self.mod.classify(f.name, case, str(v)) if hasattr(self.mod, "classify") else None
            if fid is not None and fid in self.known:
                self.knownhits[fid] = self.knownhits.get(fid, 0) + 1
                return
            size = case_size(case)
            if self.best is None:
                self.first_fail_at = time.monotonic()
                self.first_history = list(self.worker.history[:-1])
                self.first = (size, case, str(v))
            if self.best is None or size < self.best[0]:
                self.best = (size, case, str(v))
            raise
        if obs is None:
            return
        self.evals += 1
        if self.best is None and f.nontrivial(case, obs):
            h = hashlib.blake2b(codec.dumps(case).encode(), digest_size=8).digest()
            if h not in self.hashes:
                self.hashes.add(h)
                if len(self.samples) < 3 and len(self.hashes) % 7 == 1:
                    self.samples.append(case)

    def run(self, n, seed, shrink_s=25):
        self.shrink_s = shrink_s
        try:
            for i, ex in enumerate(self.facet.examples):
                if i % self.total == self.offset:
                    try:
                        self.one(ex)
                    except Violation:
                        return
            if n <= 0:
                return

            @hypothesis.seed(seed)
            @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                      report_multiple_bugs=False, print_blob=False,
                      phases=(Phase.generate, Phase.shrink),
                      suppress_health_check=list(HealthCheck))
            @given(self.facet.strategy)
            def t(case):
                self.one(case)

            try:
                t()
            except Violation:
                pass
            except hypothesis.errors.HypothesisException:
                if self.best is None:
                    raise
        except StopSearch:
            pass


def shard_main(modname, tier, seed, idx, nshards, kinds, stop_event, q, end, known, only):
    """shard idx does one nshards-th of the cases of each facet"""
    scratch = tempfile.mkdtemp(prefix="gsv-")
    runtime = kinds[idx]
    res = {"shard": idx, "runtime": runtime, "facets": {}, "error": None, "violation": None}
    worker = None
    try:
        mod = importlib.import_module("props." + modname)
        worker = new_worker(mod, runtime, scratch)
        t0 = time.monotonic()
        worker.start()
        facets = [f for f in mod.FACETS if not only or f.name in only]
        weights = [getattr(f, tier) for f in facets]
        # facets in rotated order, so that an early stop does not always starve the same ones
        order = facets[idx % len(facets):] + facets[:idx % len(facets)]
        done = 0
        for f in order:
            total = getattr(f, tier)
            n = total // nshards + (1 if idx % nshards < total % nshards else 0)
            left = end - time.monotonic()
            share = left * total / max(1, (sum(weights) - done))
            done += total
            h = int(hashlib.sha256(("%s/%s/%d/%d" % (modname, f.name, seed, idx)).encode()).hexdigest()[:15], 16)
            fr = FacetRun(f, mod, worker, stop_event, min(end, time.monotonic() + max(3.0, share * 1.6)),
                          known, kinds[:idx].count(runtime), kinds.count(runtime))
            fr.run(n, h)
            res["facets"][f.name] = {"evals": fr.evals, "hashes": fr.hashes, "samples": fr.samples,
                                     "known": fr.knownhits, "truncated": fr.truncated}
            if fr.hang is not None:
                case, msg = fr.hang
                worker.stop()
                if run_one(f, mod, case, 90, (), runtime) is not None and \
                        (m2 := run_one(f, mod, case, 90, (), runtime)) is not None:
                    stop_event.set()
                    res["violation"] = {"facet": f.name, "case": case, "message": m2, "history": [],
                                        "runtime": runtime}
                    break
                res["facets"][f.name]["lost_worker"] = msg
                worker.start()
            if fr.best is not None:
                stop_event.set()
                res["violation"] = confirm(f, mod, fr, runtime)
                if res["violation"] is None:
                    res["error"] = "unconfirmed failure in %s: %s on %s" % (
                        f.name, fr.best[2], codec.dumps(fr.best[1])[:2000])
                break
            if stop_event.is_set():
                break
        res["wall"] = time.monotonic() - t0
    except BaseException:
        res["error"] = traceback.format_exc()
        stop_event.set()
    finally:
        if worker is not None:
            worker.stop()
        shutil.rmtree(scratch, ignore_errors=True)
    q.put(res)


def confirm(f, mod, fr, runtime):
    """A failure counts when a fresh worker shows it again."""
    for size, case, msg in (fr.best, fr.first):
        m = run_one(f, mod, case, runtime=runtime)
        if m is not None:
            return {"facet": f.name, "case": case, "message": m, "history": [],
                    "runtime": runtime}
    # it needed what ran before it: replay the worker's whole history, then cut it down
    size, case, msg = fr.first
    hist = fr.first_history
    if run_one(f, mod, case, history=hist, runtime=runtime) is None:
        return None
    t0 = time.monotonic()
    step = max(1, len(hist) // 2)
    while step >= 1 and time.monotonic() - t0 < 120:
        i = 0
        while i < len(hist) and time.monotonic() - t0 < 120:
            cand = hist[:i] + hist[i + step:]
            if run_one(f, mod, case, history=cand, runtime=runtime) is not None:
                hist = cand
            else:
                i += step
        if step == 1:
            break
        step //= 2
    m = run_one(f, mod, case, history=hist, runtime=runtime)
    if m is None:
        return None
    return {"facet": f.name, "case": case, "message": m, "history": [list(h) for h in hist],
            "runtime": runtime}


def load_known(pid):
    with open(KNOWN_FILE) as fh:
        d = json.load(fh)
    return {e["id"]: e for e in d["findings"] if e["property"] == pid and e["status"] == "known"}


def run_check(pid, tier, seed, only=None, scale=1.0):
    modname = pid.lower()
    t0 = time.monotonic()
    mod = importlib.import_module("props." + modname)
    if scale != 1.0:
        for f in mod.FACETS:
            f.quick, f.thorough = int(f.quick * scale), int(f.thorough * scale)
    known = load_known(pid)
    budget = getattr(mod, "QUICK_S", 100) if tier == "quick" else getattr(mod, "THOROUGH_S", 700)
    nshards = min(NSHARDS, getattr(mod, "SHARDS", 8))
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    stop = ctx.Event()
    end = time.monotonic() + budget
    kinds = runtimes(mod, nshards)
    procs = [ctx.Process(target=shard_main,
                         args=(modname, tier, seed, i, nshards, kinds, stop, q, end, set(known), only))
             for i in range(len(kinds))]
    for p in procs:
        p.start()
    results = []
    for _ in procs:
        results.append(q.get())
    for p in procs:
        p.join()
    results.sort(key=lambda r: r["shard"])
    errors = [r["error"] for r in results if r["error"]]
    viols = [r["violation"] for r in results if r["violation"]]

    # known findings: shown again on every run, from their own stored case
    known_lines = []
    facets = {f.name: f for f in mod.FACETS}
    for fid, e in sorted(known.items()):
        case = codec.dec(e["case"])
        m = run_one(facets[e["facet"]], mod, case)
        if m is not None:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))

    per = {}
    allh = {}
    for r in results:
        for name, d in r["facets"].items():
            x = per.setdefault(name, {"evaluations": 0, "nontrivial": 0, "known_hits": {}, "truncated_shards": 0,
                                      "rule": facets[name].rule})
            x["evaluations"] += d["evals"]
            by = x.setdefault("by_interpreter", {})
            by[r["runtime"]] = by.get(r["runtime"], 0) + d["evals"]
            x["truncated_shards"] += bool(d["truncated"])
            if d.get("lost_worker"):
                x["lost_worker"] = d["lost_worker"]
            for k, v in d["known"].items():
                x["known_hits"][k] = x["known_hits"].get(k, 0) + v
            allh.setdefault(name, set()).update(d["hashes"])
    for name, h in allh.items():
        per[name]["nontrivial"] = len(h)
    samples = []
    for name in per:
        for r in results:
            ss = r["facets"].get(name, {}).get("samples", [])
            if ss:
                samples.append({"facet": name, "case": json.loads(codec.dumps(ss[0]))})
                break
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(x["evaluations"] for x in per.values()),
            "distinct_nontrivial": sum(len(h) for h in allh.values()),
            "rule": "Hypothesis-generated cases, one oracle per facet; a case is non-trivial when: " +
                    " | ".join("%s: %s" % (f.name, f.rule or "any") for f in mod.FACETS),
            "samples": samples,
            "facets": per,
            "shards": {k: kinds.count(k) for k in sorted(set(kinds))},
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(viols),
        "known_findings": known_lines,
    }
    rc = 0
    if viols:
        viols.sort(key=lambda v: case_size(v["case"]))
        v = viols[0]
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        body = {"property": pid, "facet": v["facet"], "message": v["message"], "runtime": v["runtime"],
                "case": json.loads(codec.dumps(v["case"])),
                "history": [[op, json.loads(codec.dumps(c))] for op, c in v["history"]]}
        text = json.dumps(body, indent=1, sort_keys=True)
        path = os.path.join(EVID, "replays", "%s-%s.json" % (pid, hashlib.sha256(text.encode()).hexdigest()[:12]))
        with open(path, "w") as fh:
            fh.write(text)
        ev["violation"] = body
        print("%s facet=%s (%s): %s" % (pid, v["facet"], v["runtime"], v["message"][:2000]))
        print("case: %s" % codec.dumps(v["case"])[:2000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    elif errors:
        print("ERROR in the check of %s (no verdict):\n%s" % (pid, "\n".join(list(dict.fromkeys(errors))[:1])[:6000]))
        rc = 2
    else:
        need = [f.name for f in mod.FACETS if (not only or f.name in only)
                and len(allh.get(f.name, ())) < max(2, getattr(f, tier) // 200)]
        if need:
            print("ERROR in the check of %s: too few non-trivial cases in %s: %s" % (
                pid, need, {k: (per.get(k) or {}).get("nontrivial") for k in need}))
            rc = 2
    ev["outcome"] = {0: "held", 1: "violated", 2: "error"}[rc]
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, "%s.json.tmp" % pid)
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(EVID, "%s.json" % pid))
    for line in known_lines:
        print(line)
    if rc == 0:
        print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (
            pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
        if os.environ.get("VERIF_VERBOSE"):
            for k, x in per.items():
                print("   ", k, x["evaluations"], x["nontrivial"], "truncated" if x["truncated_shards"] else "")
    return rc


def replay(path):
    with open(path) as fh:
        body = json.load(fh)
    mod = importlib.import_module("props." + body["property"].lower())
    f = {f.name: f for f in mod.FACETS}[body["facet"]]
    m = run_one(f, mod, codec.dec(body["case"]), history=[(op, codec.dec(c)) for op, c in body["history"]],
                runtime=body.get("runtime"))
    if m is None:
        print("replay of %s: the property holds on this case" % path)
        return 0
    print("%s facet=%s: %s" % (body["property"], body["facet"], m))
    print("VIOLATION property=%s replay=%s" % (body["property"], path))
    return 1


def setup():
    """Starts a worker of each runtime on the current tree."""
    for probes, runtime in (("pat", "jython"), ("pat", "cpython")):
        scratch = tempfile.mkdtemp(prefix="gsv-")
        w = Worker(probes, runtime, scratch)
        try:
            w.start()
            print("%s worker starts" % runtime)
        finally:
            w.stop()
            shutil.rmtree(scratch, ignore_errors=True)
    return 0
