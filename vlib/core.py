"""The check driver: seeded cases, oracles, event counts, replay files, evidence."""
import hashlib
import json
import os
import pickle
import signal
import sys
import time
import traceback

import numpy as np

from . import build
from .build import HarnessError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_LIMIT = 240
TOTAL_LIMIT = {"quick": 780, "thorough": 840}
CUT_AFTER = 600      # seconds after which no new case is begun


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class RunTimeout(BaseException):
    pass


def jsonable(x, depth=0):
    if isinstance(x, np.ndarray):
        if x.size > 24:
            return "array%s %s.." % (x.shape, np.array2string(x.ravel()[:6], precision=17, separator=","))
        return jsonable(x.tolist(), depth)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth)
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, (int, bool, str)) or x is None:
        return x
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        if len(x) > 24:
            return [jsonable(v, depth + 1) for v in x[:8]] + ["... %d items" % len(x)]
        return [jsonable(v, depth + 1) for v in x]
    return repr(x)[:200]


def digest(x):
    h = hashlib.sha1()

    def feed(v):
        if isinstance(v, np.ndarray):
            h.update(str((v.shape, v.dtype.str)).encode())
            h.update(np.ascontiguousarray(v).tobytes() if v.dtype != object else repr(v.tolist()).encode())
        elif isinstance(v, dict):
            for k in sorted(v, key=str):
                h.update(str(k).encode())
                feed(v[k])
        elif isinstance(v, (list, tuple)):
            h.update(b"[%d" % len(v))
            for e in v:
                feed(e)
        else:
            h.update(repr(v).encode())
    feed(x)
    return h.hexdigest()[:16]


class Case:
    def __init__(self, check, section, index):
        self.check, self.section, self.index = check, section, index
        key = int.from_bytes(hashlib.sha256(("%d/%s/%d" % (check.seed, section, index)).encode()).digest()[:8], "little")
        self.rng = np.random.default_rng(key)
        self.np_seed = int(key % (2**32 - 5))
        np.random.seed(self.np_seed)
        self.inputs = {}
        self.oracles = 0
        self.events = {}
        self.acc = {}
        self.found = []
        self.thorough = check.tier == "thorough"

    # ---- description and counts
    def desc(self, **kw):
        self.inputs.update(kw)

    def count(self, event, n=1):
        self.events[event] = self.events.get(event, 0) + int(n)

    def add(self, key, value):
        """Keeps a value for the aggregate oracles that run after all cases."""
        self.acc.setdefault(key, []).append(value)

    # ---- oracles
    def fail(self, msg, **kw):
        self.inputs.update(kw)
        raise Violation(msg)

    def ok(self, cond, msg, **kw):
        self.oracles += 1
        if not cond:
            self.fail(msg, **kw)

    def finding(self, key, msg, **kw):
        """A violation of a kind that the known-findings file may list."""
        self.oracles += 1
        if key in self.check.known:
            self.found.append((key, msg))
        else:
            self.fail(msg, **kw)

    def close(self, got, want, rtol=1e-9, atol=0., msg="value", scale=None, shape=True, **kw):
        """Element-wise |got-want| <= atol + rtol*scale; NaN equals NaN; infinities must match."""
        self.oracles += 1
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if shape and g.shape != w.shape:
            self.fail("%s: shape %s, expected %s" % (msg, g.shape, w.shape), got=got, want=want, **kw)
        s = np.abs(w) if scale is None else np.asarray(scale, dtype=float)
        with np.errstate(all="ignore"):
            bad = ~((np.abs(g - w) <= atol + rtol * s) | (np.isnan(g) & np.isnan(w)) | (g == w))
        if np.any(bad):
            if g.ndim == 0 and w.ndim == 0:
                self.fail("%s: got %r, expected %r" % (msg, float(g), float(w)), **kw)
            bad = np.broadcast_to(bad, np.broadcast(g, w).shape)
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            gg, ww = np.broadcast_to(g, bad.shape)[i], np.broadcast_to(w, bad.shape)[i]
            self.fail("%s: at %s got %r, expected %r (%d of %d wrong)"
                      % (msg, i, float(gg), float(ww), int(bad.sum()), bad.size), **kw)

    def same(self, got, want, msg="value", **kw):
        """Bit-for-bit equality (NaN equals NaN)."""
        self.oracles += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.fail("%s: shape %s, expected %s" % (msg, g.shape, w.shape), **kw)
        if g.dtype.kind in "fc" or w.dtype.kind in "fc":
            eq = (g == w) | ((g != g) & (w != w))
        else:
            eq = g == w
        if not np.all(eq):
            i = tuple(int(v) for v in np.argwhere(~np.atleast_1d(eq))[0])
            self.fail("%s: at %s got %r, expected %r" % (msg, i, np.atleast_1d(g)[i], np.atleast_1d(w)[i]), **kw)


class Check:
    def __init__(self, prop, seed, tier, replay=None):
        self.prop, self.seed, self.tier = prop, int(seed), tier
        self.sections, self.posts, self.needs = [], [], {}
        self.counts, self.acc = {}, {}
        self.evaluations, self.digests, self.trivial, self.oracles = 0, set(), 0, 0
        self.samples, self.violations, self.findings = [], [], {}
        self.rule = "cases are generated from (seed, section, index)"
        self.assumptions = []
        self.notes = {}
        self.known = {}
        self.replay = replay
        self.deadline = float("inf")
        self.load_known()

    # ---- set-up by the check modules
    def section(self, name, func, quick, thorough=None, jobs=None):
        self.sections.append((name, func, int(quick), int(thorough if thorough is not None else quick * 12), jobs))

    def post(self, name, func):
        """func(check, case) runs once after all sections, on self.acc."""
        self.posts.append((name, func))

    def need(self, event, n=1):
        self.needs[event] = n

    def load_known(self):
        path = os.path.join(HERE, "known_findings.txt")
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    line = line.strip()
                    if line.startswith("finding: property=%s " % self.prop):
                        rest = line.split(" ", 2)[2]
                        key, _, text = rest.partition(" ")
                        self.known[key.replace("key=", "")] = text

    # ---- running
    def one(self, name, func, index):
        """Runs one case; returns a picklable record."""
        c = Case(self, name, index)
        err = None

        def on_alarm(sig, frame):
            raise CaseTimeout()
        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(CASE_LIMIT)
        try:
            with np.errstate(all="ignore"):
                func(c)
        except Violation as e:
            err = str(e)
        except CaseTimeout:
            err = "a call did not return within %d s" % CASE_LIMIT
        except (HarnessError, MemoryError) as e:
            return dict(harness="%s: %s" % (type(e).__name__, e))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join("%s:%s %s" % (os.path.basename(t.filename), t.lineno, t.name) for t in tb[-4:])
            err = "unexpected %s: %s [%s]" % (type(e).__name__, str(e)[:300], where)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        return dict(section=name, index=index, err=err, inputs=jsonable(c.inputs), digest=digest(c.inputs),
                    oracles=c.oracles, events=c.events, acc=c.acc, found=c.found)

    def merge(self, r):
        if "harness" in r:
            raise HarnessError(r["harness"])
        self.evaluations += 1
        self.oracles += r["oracles"]
        if r["oracles"] and r["inputs"]:
            self.digests.add(r["section"] + r["digest"])
        else:
            self.trivial += 1
        for k, v in r["events"].items():
            self.counts[k] = self.counts.get(k, 0) + v
        for k, v in r["acc"].items():
            self.acc.setdefault(k, []).extend(v)
        for key, msg in r["found"]:
            self.findings.setdefault(key, msg)
        if r["err"] is not None:
            self.violations.append(dict(section=r["section"], index=r["index"], message=r["err"], inputs=r["inputs"]))
        elif r["index"] == 0 and len(self.samples) < 12:
            self.samples.append(dict(section=r["section"], inputs=r["inputs"]))

    def run_section(self, name, func, n, jobs):
        if jobs is None:
            jobs = min(8, os.cpu_count() or 1)
        jobs = max(1, min(jobs, n))
        if jobs == 1:
            for k in range(n):
                if time.time() > self.deadline:
                    break
                self.merge(self.one(name, func, k))
                if len([v for v in self.violations if v["section"] == name]) >= 3:
                    return
            return
        pids = []
        sys.stdout.flush()
        sys.stderr.flush()
        for j in range(jobs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    signal.signal(signal.SIGTERM, signal.SIG_DFL)
                    out, bad = [], 0
                    for k in range(j, n, jobs):
                        if time.time() > self.deadline:
                            break
                        rec = self.one(name, func, k)
                        out.append(rec)
                        bad += rec.get("err") is not None
                        if bad >= 2:
                            break
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(out, f)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(w)
            pids.append((pid, r))
            self.children.append(pid)
        recs = []
        for pid, r in pids:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            _, status = os.waitpid(pid, 0)
            self.children.remove(pid)
            if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE):
                self.violations.append(dict(section=name, index=0, inputs={},
                                            message="the process died with signal %d" % os.WTERMSIG(status)))
                continue
            if status != 0 or not data:
                raise HarnessError("a worker of section %s ended with status %d" % (name, status))
            recs += pickle.loads(data)
        recs.sort(key=lambda d: d.get("index", -1))
        for rec in recs:
            self.merge(rec)

    def run(self):
        t0 = time.time()
        self.children = []
        status = 0

        def on_term(sig, frame):
            raise RunTimeout()
        signal.signal(signal.SIGTERM, on_term)
        watchdog = os.fork()
        if watchdog == 0:
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            parent = os.getppid()
            end = time.time() + TOTAL_LIMIT[self.tier]
            while time.time() < end:
                time.sleep(0.5)
                if os.getppid() != parent:
                    os._exit(0)
            os.kill(parent, signal.SIGTERM)
            os._exit(0)
        try:
            if self.replay:
                for name, func, nq, nt, jobs in self.sections:
                    if name == self.replay["section"]:
                        self.merge(self.one(name, func, self.replay["index"]))
                if not self.evaluations:
                    for name, func, nq, nt, jobs in self.sections:
                        self.run_section(name, func, nt if self.tier == "thorough" else nq, jobs)
                    for name, func in self.posts:
                        if name == self.replay["section"]:
                            self.merge(self.one(name, lambda c: func(self, c), 0))
            else:
                for i, (name, func, nq, nt, jobs) in enumerate(self.sections):
                    n = nt if self.tier == "thorough" else nq
                    t1 = time.time()
                    # a slow machine explores fewer cases: no section takes more than 60 % of the time left, the last all of it
                    left = t0 + CUT_AFTER - t1
                    self.deadline = t1 + max(1., left * (.6 if i + 1 < len(self.sections) else 1.))
                    before = self.evaluations
                    self.run_section(name, func, n, jobs)
                    if time.time() > self.deadline:
                        self.notes.setdefault("sections_cut_short", {})[name] = [self.evaluations - before, n]
                    self.notes.setdefault("section_seconds", {})[name] = round(time.time() - t1, 2)
                if not self.violations:
                    for name, func in self.posts:
                        self.merge(self.one(name, lambda c: func(self, c), 0))
        except RunTimeout:
            print("INCONCLUSIVE: time limit of %d s reached" % TOTAL_LIMIT[self.tier])
            status = 3
        finally:
            for pid in self.children + [watchdog]:
                try:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                except OSError:
                    pass
        for key, msg in sorted(self.findings.items()):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, key, self.known[key]))
        missing = {} if (self.replay or self.violations) else \
            {k: (self.counts.get(k, 0), n) for k, n in self.needs.items() if self.counts.get(k, 0) < n}
        self.write_evidence(time.time() - t0, missing)
        if self.violations:
            path = os.path.join(HERE, "evidence", self.prop + ".replay.json")
            v = self.violations[0]
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, violations=self.violations[:20], **v), f, indent=1)
            for v in self.violations[:6]:
                print("  [%s #%d] %s" % (v["section"], v["index"], v["message"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        if status:
            return status
        if missing:
            print("INCONCLUSIVE: required events not observed (seen, required): %s" % missing)
            return 3
        print("%s held: %d cases, %d distinct, %d oracle decisions, events %s, %.1f s"
              % (self.prop, self.evaluations, len(self.digests), self.oracles, self.counts, time.time() - t0))
        return 0

    def write_evidence(self, wall, missing):
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.digests),
                   rule=self.rule + " A case counts as non-trivial when an oracle decided at least one question about it; "
                   "distinct means distinct recorded inputs.",
                   samples=self.samples[:12], oracle_decisions=self.oracles,
                   events=dict(sorted(self.counts.items())), required_events=self.needs,
                   known_findings_seen=sorted(self.findings))
        cov.update(self.notes)
        if missing:
            cov["required_events_missing"] = {k: list(v) for k, v in missing.items()}
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 3), violations=len(self.violations))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(jsonable_deep(ev), f, indent=1)
        os.replace(path + ".tmp", path)


def jsonable_deep(x):
    if isinstance(x, dict):
        return {str(k): jsonable_deep(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable_deep(v) for v in x]
    return jsonable(x)
