"""Framework of the conformance checks: cases, violations, evidence."""
import hashlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback
from contextlib import contextmanager, redirect_stdout
import io

from .tlc import VERIF, MachineryError, run_tlc, cfg  # noqa: F401

REPO = "/repo"
if REPO not in sys.path:
    sys.path.insert(0, REPO)

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class Mismatch(Exception):
    """The implementation's observable behaviour differs from the spec."""


class CaseTimeout(Exception):
    """A case did not terminate."""


def _alarm(signum, frame):
    raise CaseTimeout()


class Check:
    """One run of one check."""

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.violations = []     # dicts: key, clause, detail, case
        self.samples = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.models = []
        self.counts = {}
        self.extra = {}
        self.assumptions = []
        self.exhaustive = False

    # -- specification side -------------------------------------------------
    def tlc(self, module, config, *, name=None, count=True, **kw):
        """Run TLC; spec-level invariant failures are machinery errors (the
        specification must be internally right before it judges the code)."""
        t = time.time()
        r = run_tlc(module, config, **kw)
        self.states += r.distinct
        self.transitions += max(0, r.generated - r.initial)
        self.models.append(dict(module=module, name=name or module,
                                states=r.distinct, transitions=max(0, r.generated - r.initial),
                                records=len(r.records),
                                wall_s=round(time.time() - t, 2)))
        return r

    # -- implementation side ------------------------------------------------
    def case(self, name, fn, *args, sample=None, key=None, timeout=120,
             clause=None):
        """Run one replay; whatever it raises is a violation."""
        self.traces += 1
        head = name.split(":")[0]
        self.counts[head] = self.counts.get(head, 0) + 1
        if sample is not None and len(self.samples) < 6 and \
                self.counts[head] in (1, 7):
            self.samples.append(sample)
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(timeout)
        try:
            with redirect_stdout(io.StringIO()):
                res = fn(*args)
            signal.alarm(0)
            return res
        except MachineryError:
            raise
        except Mismatch as exc:
            signal.alarm(0)
            self.violation(key or name, clause or "mismatch", str(exc),
                           dict(case=name, data=sample))
        except CaseTimeout:
            self.violation(key or name, "does not terminate",
                           f"no answer after {timeout} s",
                           dict(case=name, data=sample))
        except Exception as exc:  # the code under test failed on valid input
            signal.alarm(0)
            self.violation(key or name, "unexpected exception",
                           f"{type(exc).__name__}: {exc} "
                           f"{getattr(exc, 'message', '')}",
                           dict(case=name, data=sample,
                                traceback=traceback.format_exc()[-3000:]))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        return None

    def run_cases(self, cases, procs=8, timeout=120, few=16):
        """Run many cases [(name, fn, args, sample)] over forked workers;
        the values they return, in no particular order."""
        if procs <= 1 or len(cases) < few:
            got = [self.case(c[0], c[1], *c[2], sample=c[3], timeout=timeout) for c in cases]
            return [g for g in got if g is not None]
        results = []
        ctx = multiprocessing.get_context("fork")
        chunks = [cases[i::procs] for i in range(procs)]
        pipes = []
        for ch in chunks:
            rd, wr = ctx.Pipe(False)
            p = ctx.Process(target=self._worker, args=(ch, wr, timeout))
            p.start()
            wr.close()
            pipes.append((p, rd))
        for p, rd in pipes:
            try:
                sub = rd.recv()
            except EOFError as exc:
                p.join()
                raise MachineryError(
                    f"a worker died (exit {p.exitcode})") from exc
            p.join()
            if isinstance(sub, str):
                raise MachineryError(sub)
            self.violations += sub["violations"]
            self.traces += sub["traces"]
            for k, v in sub["counts"].items():
                self.counts[k] = self.counts.get(k, 0) + v
            for k, v in sub["extra"].items():
                self.extra[k] = self.extra.get(k, 0) + v
            self.samples += sub["samples"]
            results += sub["results"]
        self.samples = self.samples[:6]
        return results

    def _worker(self, cases, wr, timeout):
        sub = Check(self.pid)
        got = []
        try:
            for c in cases:
                got.append(sub.case(c[0], c[1], *c[2], sample=c[3], timeout=timeout))
            wr.send(dict(violations=sub.violations, traces=sub.traces,
                         counts=sub.counts, samples=sub.samples[:2],
                         extra=sub.extra, results=[g for g in got if g is not None]))
        except BaseException:
            wr.send(traceback.format_exc())
        wr.close()
        sys.stdout.flush()
        os._exit(0)

    @staticmethod
    def pick(items, k, salt=0):
        """A seeded sample of at most k items, in order."""
        items = list(items)
        if len(items) <= k:
            return items
        rnd = random.Random(SEED * 1000003 + salt)
        return [items[i] for i in sorted(rnd.sample(range(len(items)), k))]

    def violation(self, key, clause, detail, case=None):
        self.violations.append(dict(property=self.pid, key=str(key),
                                    clause=clause, detail=detail, case=case))

    def need(self, name, minimum):
        """Vacuity guard: that many cases of a kind must have been run."""
        if self.counts.get(name, 0) < minimum:
            raise MachineryError(
                f"vacuous run: {self.counts.get(name, 0)} cases of "
                f"'{name}', expected at least {minimum}")

    # -- verdict --------------------------------------------------------------
    def finish(self):
        known = load_known(self.pid)
        fresh, seen = [], {}
        for v in self.violations:
            for k in known:
                if k["key"] == v["key"]:
                    seen.setdefault(k["key"], (k, v))
                    break
            else:
                fresh.append(v)
        for k, v in seen.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        ev = dict(
            property=self.pid, tier=TIER, seed=SEED, level="model_checking",
            coverage=dict(
                states=self.states, transitions=self.transitions,
                traces_validated_against_impl=self.traces,
                samples=self.samples[:6], models=self.models,
                cases_by_kind=self.counts, measured=self.extra, exhaustive=self.exhaustive),
            assumptions=self.assumptions,
            wall_s=round(time.time() - self.t0, 2),
            violations=len(fresh))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if not fresh:
            print(f"OK property={self.pid} states={self.states} "
                  f"transitions={self.transitions} traces={self.traces} "
                  f"wall={ev['wall_s']}s")
            return 0
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        shown = set()
        for v in fresh:
            sig = (v["key"], v["clause"])
            if sig in shown or len(shown) >= 10:
                continue
            shown.add(sig)
            h = hashlib.sha1(repr(sig).encode()).hexdigest()[:10]
            p = os.path.join(d, f"{self.pid}-{h}.json")
            with open(p, "w") as f:
                json.dump(v, f, indent=1, default=str)
            print(f"VIOLATION property={self.pid} replay={p}")
            print(f"  {v['key']} [{v['clause']}] {v['detail']}"[:600])
        print(f"  ({len(fresh)} violating cases)")
        return 1


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        data = json.load(f)
    return [k for k in data["known"] if k["property"] == pid]


# -- comparing floats with exact values -------------------------------------
def close(got, want, tol=1e-9, what="value"):
    import numpy as np
    g = np.asarray(got, dtype=float)
    w = np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Mismatch(f"{what}: shape {g.shape}, specified {w.shape}")
    if g.size == 0:
        return
    if not np.all(np.isfinite(g)):
        raise Mismatch(f"{what}: not finite")
    scale = max(1.0, float(np.max(np.abs(w))))
    err = np.abs(g - w)
    if float(np.max(err)) > tol * scale:
        i = np.unravel_index(int(np.argmax(err)), err.shape) if err.shape else ()
        raise Mismatch(f"{what}: got {g[i]!r}, specified {w[i]!r} at {i} "
                       f"(tolerance {tol * scale:.1e})")


def same(got, want, what="value"):
    if got != want:
        raise Mismatch(f"{what}: got {got!r}, specified {want!r}")


def expect(cond, what):
    if not cond:
        raise Mismatch(what)


@contextmanager
def rejected(what, *types):
    """The call inside must raise (one of the given types, if any)."""
    try:
        yield
    except (Mismatch, MachineryError, CaseTimeout):
        raise
    except Exception as exc:
        if types and not isinstance(exc, types):
            raise Mismatch(f"{what}: raised {type(exc).__name__}, specified "
                           f"{[t.__name__ for t in types]}") from exc
        return
    raise Mismatch(f"{what}: accepted, specified to be rejected")


def frac(x):
    """<<num, den>> of the specification as a float."""
    return x[0] / x[1]
