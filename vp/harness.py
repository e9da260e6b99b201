"""Generated-input search, shrinking, replay, known findings and evidence."""

import hashlib
import json
import math
import multiprocessing
import os
import sys
import time
import traceback
import warnings

import numpy as np

from . import boot

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY_DIR = os.path.join(ROOT, "evidence", "replay")


class Violation(Exception):
    """The property does not hold for the case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    """Something of ours went wrong: never a verdict."""


def ref(fn, *args, **kw):
    """Call a reference computation; its failures are ours."""
    try:
        with np.errstate(all="ignore"):
            return fn(*args, **kw)
    except Exception as e:
        raise HarnessError("reference %s failed: %r\n%s" % (getattr(fn, "__name__", fn), e, traceback.format_exc()))


def require(cond, msg, *args, key=None):
    if not cond:
        raise Violation(msg % args if args else msg, key)


def same(what, got, want, rtol=1e-7, atol=1e-9, key=None):
    """Element-wise agreement, NaN equal to NaN."""
    g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Violation("%s has the shape %s instead of %s" % (what, g.shape, w.shape), key)
    with np.errstate(all="ignore"):
        ok = (g == w) | (np.abs(g - w) <= atol + rtol * np.abs(w)) | (np.isnan(g) & np.isnan(w))
    if not np.all(ok):
        i = int(np.argmin(np.ravel(ok)))
        raise Violation(
            "%s[%d] is %r, expected %r (%d of %d elements differ)"
            % (what, i, float(np.ravel(g)[i]), float(np.ravel(w)[i]), int((~ok).sum()), ok.size),
            key,
        )


def identical(what, got, want, key=None):
    """Bit-wise agreement of two results of the code under test."""
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape or not np.array_equal(g, w, equal_nan=g.dtype.kind == "f" and w.dtype.kind == "f"):
        raise Violation("%s: %r differs from %r" % (what, got, want), key)


def alike(what, got, want, key=None):
    """The same result, up to the rounding that another way to the same value may cause."""
    same(what, got, want, 1e-12, 1e-14, key)


def canon(case):
    return json.dumps(case, sort_keys=True)


class Rec:
    """What the cases looked like."""

    def __init__(self):
        self.evaluations = 0
        self.tags = {}
        self.seen = set()
        self.samples = []
        self.known = {}
        self._nt = False
        self._tags = set()

    def begin(self):
        self.evaluations += 1
        self._nt = False
        self._tags = set()

    def tag(self, *names):
        self._tags.update(n for n in names if n)

    def nontrivial(self, cond=True):
        self._nt = self._nt or bool(cond)

    def end(self, case):
        for t in self._tags:
            self.tags[t] = self.tags.get(t, 0) + 1
        if self._nt:
            h = hashlib.md5(canon(case).encode()).digest()
            if h not in self.seen:
                self.seen.add(h)
                n = len(self.seen)
                if len(self.samples) < 2 or (len(self.samples) < 6 and n & (n - 1) == 0 and n >= 16):
                    self.samples.append(case)


class Law:
    """One executable statement.

    strategy: () -> Hypothesis strategy of JSON-able cases
    check: (case, rec) -> None, raising Violation
    n: base number of cases over all shards
    """

    def __init__(self, name, strategy, check, n, rule="", thorough=24, shards=8):
        self.name, self.strategy, self.check, self.n, self.rule = name, strategy, check, n, rule
        self.thorough, self.shards = thorough, shards


class Property:
    def __init__(self, pid, laws, rule, assumptions=()):
        self.pid, self.laws, self.rule, self.assumptions = pid, laws, rule, list(assumptions)


# --- known findings ----------------------------------------------------------


def known_findings(pid):
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            parts = line[len("finding:") :].split(None, 2)
            fields = dict(p.split("=", 1) for p in parts[:2])
            if fields.get("property") == pid:
                out[fields["key"]] = parts[2] if len(parts) > 2 else ""
    return out


# --- running one case ---------------------------------------------------------


def run_case(law, case, rec):
    """Run one case; returns None or (key, message)."""
    case = json.loads(canon(case))
    rec.begin()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            law.check(case, rec)
    except Violation as e:
        return (e.key or "mismatch", str(e))
    except HarnessError:
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].name)
        return ("exception:" + type(e).__name__, "%s: %s at %s" % (type(e).__name__, str(e)[:300], where))
    rec.end(case)
    return None


def _seed(*parts):
    return int.from_bytes(hashlib.sha256("/".join(map(str, parts)).encode()).digest()[:8], "big")


def _shard(law, pid, shard, nshards, total, seed, known, deadline, conn):
    """Search one shard in this (forked) process and send back what was found."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = 40
    rec = Rec()
    history = []
    fails = []  # (history length, case, key, message)
    stopped = [False]
    n = total // nshards + (1 if shard < total % nshards else 0)

    class Stop(Exception):
        pass

    def body(case):
        if time.time() > deadline and not fails:
            stopped[0] = True
            return
        if not fails:
            history.append(case)
        r = run_case(law, case, rec)
        if r is None:
            return
        if r[0] in known:
            rec.known[r[0]] = rec.known.get(r[0], 0) + 1
            rec.samples.append({"known_finding": r[0], "case": case}) if rec.known[r[0]] == 1 else None
            return
        fails.append((len(history), case, r[0], r[1]))
        raise Stop(r[0])

    body = given(law.strategy())(body)
    body = settings(
        max_examples=max(n, 1),
        database=None,
        deadline=None,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )(body)
    body = hypothesis.seed(_seed(seed, pid, law.name, shard))(body)
    err = None
    try:
        body()
    except HarnessError as e:
        err = str(e)
    except Stop:
        pass
    except BaseException as e:
        if not fails:
            err = "".join(traceback.format_exception(e))
    out = dict(
        law=law.name,
        shard=shard,
        evaluations=rec.evaluations,
        nontrivial=[h.hex() for h in rec.seen],
        tags=rec.tags,
        samples=rec.samples,
        known=rec.known,
        stopped=stopped[0],
        error=err,
        failure=None,
    )
    if fails and not err:
        k = fails[0][0]
        out["failure"] = dict(case=fails[-1][1], key=fails[-1][2], message=fails[-1][3], first=fails[0][1], history=history[:k])
    conn.send(out)
    conn.close()


def _fork(fn, *args):
    """Run fn(*args, conn) in a forked process, and return what it sends."""
    ctx = multiprocessing.get_context("fork")
    a, b = ctx.Pipe(False)
    p = ctx.Process(target=fn, args=(*args, b))
    p.start()
    b.close()
    return p, a


def _replay_child(law, cases, conn):
    r = err = None
    try:
        rec = Rec()
        for c in cases:
            r = run_case(law, c, rec)
            if r is not None:
                break
    except BaseException:
        err = traceback.format_exc()
    conn.send((r, err))
    conn.close()


def fresh_run(law, cases):
    """Outcome of the cases, one after another, in a fresh process."""
    p, a = _fork(_replay_child, law, cases)
    try:
        out = a.recv()
    except EOFError:
        out = (None, "the process died")
    p.join()
    if out[1]:
        raise HarnessError(out[1])
    return out[0]


def minimise_history(law, cases, budget):
    """Delta debugging of a list of cases whose run in order fails."""
    t0 = time.time()
    last, rest = cases[-1], list(cases[:-1])
    n = 2
    while rest and time.time() - t0 < budget:
        size = max(1, len(rest) // n)
        for i in range(0, len(rest), size):
            cand = rest[:i] + rest[i + size :]
            if fresh_run(law, cand + [last]) is not None:
                rest, n = cand, max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(len(rest), n * 2)
    return rest + [last]


def settle(pid, law, failure):
    """Turn a failure into a replay that fails in a fresh process."""
    for cases in ([failure["case"]], [failure["first"]]):
        r = fresh_run(law, cases)
        if r is not None:
            return cases, r
    hist = failure["history"]
    r = fresh_run(law, hist)
    if r is not None:
        cases = minimise_history(law, hist, 60)
        return cases, fresh_run(law, cases) or r
    return hist, (failure["key"], failure["message"] + " (seen once, not reproduced from the recorded history)")


# --- a whole check ------------------------------------------------------------


# The quick tier has twice the base numbers of cases of the laws
QUICK = 2


def run_property(prop, tier, seed, budget):
    known = known_findings(prop.pid)
    t0 = time.time()
    deadline = t0 + budget
    jobs = []
    for law in prop.laws:
        total = law.n * (law.thorough if tier == "thorough" else QUICK)
        for k in range(law.shards):
            jobs.append((law, k, law.shards, total))
    # expensive laws first is not needed: shards are interleaved
    jobs.sort(key=lambda j: j[1])
    cpus = max(1, min(8, len(os.sched_getaffinity(0))))
    running, results = [], []
    jobs = jobs[::-1]
    from multiprocessing.connection import wait

    while jobs or running:
        while jobs and len(running) < cpus:
            law, k, ns, total = jobs.pop()
            p, a = _fork(_shard, law, prop.pid, k, ns, total, seed, known, deadline)
            running.append((p, a, law))
        ready = wait([a for _, a, _ in running])
        still = []
        for p, a, law in running:
            if a in ready:
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append(dict(law=law.name, shard=-1, error="a search process died", failure=None))
                a.close()
                p.join()
            else:
                still.append((p, a, law))
        running = still

    errors = [r for r in results if r.get("error")]
    violations = []
    laws = {law.name: law for law in prop.laws}
    if not errors or any(r.get("failure") for r in results):
        by = {}
        for r in sorted(results, key=lambda r: (r["law"], r["shard"])):
            f = r.get("failure")
            if f:
                best = by.get(r["law"])
                if best is None or len(canon(f["case"])) < len(canon(best["case"])):
                    by[r["law"]] = f
        for name, f in by.items():
            cases, (key, msg) = settle(prop.pid, laws[name], f)
            os.makedirs(REPLAY_DIR, exist_ok=True)
            path = os.path.join(REPLAY_DIR, "%s-%s.json" % (prop.pid, name))
            with open(path, "w") as fp:
                json.dump(dict(property=prop.pid, law=name, key=key, message=msg, cases=cases), fp, indent=1, sort_keys=True)
            violations.append(dict(law=name, key=key, message=msg, replay=path))

    seen, tags, samples, found = {}, {}, {}, {}
    for r in results:
        if "tags" not in r:
            continue
        d = seen.setdefault(r["law"], dict(evaluations=0, nt=set()))
        d["evaluations"] += r["evaluations"]
        d["nt"].update(r["nontrivial"])
        for k, v in r["tags"].items():
            t = tags.setdefault(r["law"], {})
            t[k] = t.get(k, 0) + v
        samples.setdefault(r["law"], []).extend(r["samples"][:2])
        for k, v in r["known"].items():
            found[k] = found.get(k, 0) + v
    evidence = dict(
        property=prop.pid,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=sum(d["evaluations"] for d in seen.values()),
            distinct_nontrivial=sum(len(d["nt"]) for d in seen.values()),
            rule=prop.rule,
            samples=[dict(law=k, case=c) for k, v in samples.items() for c in v[:4]],
            laws={
                k: dict(
                    evaluations=d["evaluations"],
                    distinct_nontrivial=len(d["nt"]),
                    rule=laws[k].rule,
                    classes=dict(sorted(tags.get(k, {}).items())),
                )
                for k, d in seen.items()
            },
            known_findings_met=found,
            stopped_early=sorted({r["law"] for r in results if r.get("stopped")}),
        ),
        assumptions=prop.assumptions,
        wall_s=round(time.time() - t0, 2),
        violations=violations,
    )
    return evidence, violations, errors, known, found
