"""Runtime-monitoring harness.

A check module defines

    ID, RULE, ASSUMPTIONS, LEVEL (optional)
    cases(tier, seed)     -> list of JSON-able dicts (one workload step each)
    run_case(case, mon)   -> drives the library, reports to the monitor
    required(tier)        -> iterable of coverage keys that must be observed

The monitor counts every library call, every comparison with the oracle, the
distinct regimes in which a non-trivial comparison was made, and the largest
deviation seen.  Verdicts are three-valued: violated (exit 1), held (exit 0),
inconclusive (exit 2: a required regime was never observed non-trivially, or
the machinery itself failed).
"""
import collections
import json
import os
import signal
import sys
import time
import traceback
import multiprocessing as mp

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

FAILED = type("Failed", (), {"__repr__": lambda s: "<call failed>"})()


class CaseTimeout(BaseException):
    pass


def flatten(x):
    """Flatten nested tuples/lists of arrays."""
    if isinstance(x, (tuple, list)):
        out = []
        for y in x:
            out.extend(flatten(y))
        return out
    return [x]


class Monitor(object):
    def __init__(self, case=None):
        self.case = case
        self.calls = collections.Counter()
        self.evals = 0
        self.trivial = 0
        self.regimes = collections.Counter()
        self.seen = collections.Counter()
        self.maxerr = 0.0
        self.violations = []
        self.notes = collections.Counter()

    # -- observation ------------------------------------------------------
    def call(self, name, fn, *args, **kw):
        """Call library code; an exception on a valid input is a violation."""
        self.calls[name] += 1
        if fn is None:
            self.violate(name, "function is not provided any more")
            return FAILED
        try:
            with np.errstate(all='ignore'):
                return fn(*args, **kw)
        except CaseTimeout:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ["%s:%d" % (os.path.basename(t.filename), t.lineno)
                     for t in tb][-3:]
            self.violate(name, "raised %s: %s (%s)"
                         % (type(e).__name__, str(e)[:200], " < ".join(where)))
            return FAILED

    def violate(self, what, detail):
        self.violations.append(dict(what=what, detail=str(detail)[:1000]))

    def note(self, key, n=1):
        self.notes[key] += n

    def cover(self, *keys):
        for k in keys:
            self.seen[k] += 1

    def _done(self, what, regime, nontrivial, cover):
        self.evals += 1
        if nontrivial:
            self.regimes[what + "|" + regime] += 1
            self.seen[what] += 1
            for c in cover:
                self.seen[what + ":" + c] += 1
        else:
            self.trivial += 1

    # -- comparison -------------------------------------------------------
    def equal(self, what, got, want, tol=1e-11, regime="", cover=(),
              mag=0.0, absolute=False):
        """Compare (tuples of) arrays; tolerance relative to the largest
        reference element (or mag, if larger)."""
        if got is FAILED:
            self.evals += 1
            return False
        g, w = flatten(got), flatten(want)
        if len(g) != len(w):
            self.evals += 1
            self.violate(what, "returned %d items, expected %d"
                         % (len(g), len(w)))
            return False
        ok, nontrivial = True, False
        for k, (x, y) in enumerate(zip(g, w)):
            try:
                x, y = np.asarray(x), np.asarray(y)
                if x.dtype == object:
                    raise TypeError("object array")
            except Exception as e:
                self.violate(what, "item %d is not numeric: %r" % (k, e))
                ok = False
                continue
            if x.shape != y.shape:
                self.violate(what, "item %d has shape %s, expected %s"
                             % (k, x.shape, y.shape))
                ok = False
                continue
            if y.size == 0:
                continue
            scale = float(np.max(np.abs(y)))
            if scale > 0:
                nontrivial = True
            ref = tol if absolute else tol*max(scale, mag)
            d = np.abs(x - y)
            if not np.all(np.isfinite(d)):
                bad = np.unravel_index(np.argmin(np.isfinite(d)), d.shape)
                self.violate(what, "item %d element %s is %r, expected %r"
                             % (k, tuple(map(int, bad)), x[bad], y[bad]))
                ok = False
                continue
            e = float(np.max(d))
            if ref > 0:
                self.maxerr = max(self.maxerr, e/ref) if e <= ref \
                    else self.maxerr
            if e > ref:
                bad = np.unravel_index(np.argmax(d), d.shape)
                self.violate(
                    what, "item %d element %s is %r, expected %r "
                    "(error %.3e, allowed %.3e, %d of %d elements off) [%s]"
                    % (k, tuple(map(int, bad)), x[bad].item(), y[bad].item(),
                       e, ref, int(np.sum(d > ref)), d.size, regime))
                ok = False
        self._done(what, regime, nontrivial, cover)
        return ok

    def check(self, what, cond, detail="", regime="", cover=(),
              nontrivial=True):
        if not cond:
            self.violate(what, detail)
        self._done(what, regime, nontrivial, cover)
        return bool(cond)

    # -- merging ----------------------------------------------------------
    def state(self):
        return dict(calls=dict(self.calls), evals=self.evals,
                    trivial=self.trivial, regimes=dict(self.regimes),
                    seen=dict(self.seen), maxerr=self.maxerr,
                    violations=self.violations, notes=dict(self.notes))

    def merge(self, s):
        self.calls.update(s['calls'])
        self.evals += s['evals']
        self.trivial += s['trivial']
        self.regimes.update(s['regimes'])
        self.seen.update(s['seen'])
        self.notes.update(s['notes'])
        self.maxerr = max(self.maxerr, s['maxerr'])


def rng_of(*key):
    """Deterministic generator from a tuple of ints/strings."""
    import zlib
    words = [zlib.crc32(repr(k).encode()) for k in key]
    return np.random.default_rng(words)


def load_library():
    sys.dont_write_bytecode = True
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import cqcpy
    got = os.path.realpath(os.path.dirname(cqcpy.__file__))
    want = os.path.realpath(os.path.join(REPO, "cqcpy"))
    if got != want:
        raise RuntimeError("cqcpy imported from %s, not %s" % (got, want))


_CHECK = None


def _worker_init():
    np.seterr(all='ignore')


def _alarm(sig, frame):
    raise CaseTimeout()


def _work(arg):
    idx, case, limit = arg
    m = Monitor(case)
    t0 = time.time()
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        _CHECK.run_case(case, m)
    except CaseTimeout:
        m.violate("termination", "workload step did not finish in %d s"
                  % limit)
    except Exception:
        err = traceback.format_exc()
    finally:
        signal.alarm(0)
    return idx, m.state(), err, time.time() - t0


def run(check, tier, seed, replay=None):
    global _CHECK
    _CHECK = check
    t0 = time.time()
    ev_dir = os.path.join(HERE, "evidence")
    rp_dir = os.path.join(ev_dir, "replay")
    os.makedirs(rp_dir, exist_ok=True)
    budget = float(os.environ.get(
        "VERIF_BUDGET_S", "300" if tier == "quick" else "660"))
    limit = int(os.environ.get("VERIF_CASE_LIMIT_S", "280"))
    total = Monitor()
    errors, viol, slow = [], [], []
    load_library()
    if hasattr(check, "prepare"):
        # may report violations by itself (e.g. module does not import)
        m = Monitor()
        check.prepare(tier, seed, m)
        total.merge(m.state())
        for v in m.violations:
            viol.append((dict(stage="prepare"), v))
    if replay:
        cases = [json.load(open(replay))["case"]]
    else:
        cases = check.cases(tier, seed) if not viol else []
    ncase = len(cases)
    done, truncated = 0, False
    nproc = int(os.environ.get("VERIF_PROCS", "6"))
    if getattr(check, "SERIAL", False):
        nproc = 1

    def feed(res):
        idx, st, err, dt = res
        total.merge(st)
        slow.append((dt, idx))
        for v in st['violations']:
            viol.append((cases[idx], v))
        if err:
            errors.append((cases[idx], err))

    jobs = ((i, c, limit) for i, c in enumerate(cases))
    if nproc == 1 or ncase == 1:
        for j in jobs:
            feed(_work(j))
            done += 1
            if time.time() - t0 > budget:
                truncated = done < ncase
                break
    else:
        ctx = mp.get_context("fork")
        pool = ctx.Pool(nproc, initializer=_worker_init)
        try:
            it = pool.imap_unordered(_work, jobs, chunksize=1)
            while done < ncase:
                try:
                    res = it.next(timeout=limit + 60)
                except StopIteration:
                    break
                except mp.TimeoutError:
                    errors.append((None, "worker died or hung"))
                    break
                feed(res)
                done += 1
                if time.time() - t0 > budget:
                    truncated = done < ncase
                    break
                if len(viol) > 60:
                    truncated = done < ncase
                    break
        finally:
            pool.terminate()
            pool.join()

    missing = []
    if not replay and not viol and not errors:
        for k in check.required(tier):
            if not total.seen.get(k):
                missing.append(k)

    # violations: one replay file per distinct observation point
    lines, seen = [], collections.Counter()
    for case, v in viol:
        if seen[v['what']] >= 2 or len(lines) >= 12:
            continue
        seen[v['what']] += 1
        path = os.path.join(rp_dir, "%s-%d.json" % (check.ID, len(lines)))
        if not replay:
            with open(path, "w") as f:
                json.dump(dict(property=check.ID, case=case, violation=v,
                               tier=tier, seed=seed), f, indent=1,
                          default=str)
        else:
            path = replay
        lines.append((path, v))

    slow.sort(reverse=True)
    cov = dict(
        evaluations=total.evals,
        distinct_nontrivial=len(total.regimes),
        rule=check.RULE,
        samples=[dict(case=cases[i]) for i in
                 sorted({0, ncase//3, (2*ncase)//3, ncase-1})
                 if 0 <= i < ncase][:4]
        + [dict(regime=k, comparisons=n) for k, n in
           list(sorted(total.regimes.items()))[:6]],
        workload_steps=done,
        library_calls=sum(total.calls.values()),
        calls_by_function=dict(sorted(total.calls.items())),
        trivial_comparisons=total.trivial,
        largest_accepted_error_over_tolerance=round(total.maxerr, 6),
        truncated_by_time=truncated,
    )
    if total.notes:
        cov['observed'] = dict(sorted(total.notes.items()))
    if missing:
        cov['missing_required'] = missing[:40]
    ev = dict(property=check.ID, tier=tier, seed=seed,
              level=getattr(check, "LEVEL", "exploration"), coverage=cov,
              assumptions=list(check.ASSUMPTIONS),
              wall_s=round(time.time() - t0, 3), violations=len(viol))
    if not replay:
        tmp = os.path.join(ev_dir, ".%s.tmp" % check.ID)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(ev_dir, check.ID + ".json"))

    for path, v in lines:
        print("  %s: %s" % (v['what'], v['detail']))
        print("VIOLATION property=%s replay=%s" % (check.ID, path))
    if viol:
        print("%s: VIOLATED (%d reports, %d workload steps, %.1f s)"
              % (check.ID, len(viol), done, time.time() - t0))
        return 1
    if errors:
        for case, e in errors[:3]:
            print("CHECK ERROR in %s\n%s" % (json.dumps(case), e))
        return 2
    if missing:
        print("INCONCLUSIVE: never observed: %s" % ", ".join(missing[:20]))
        return 2
    if total.evals == 0 and not replay:
        print("INCONCLUSIVE: no oracle evaluation")
        return 2
    print("%s: held (%d comparisons in %d regimes, %d library calls, "
          "%d workload steps, slowest %.1f s, worst error %.2g of tolerance, "
          "%.1f s%s)"
          % (check.ID, total.evals, len(total.regimes),
             sum(total.calls.values()), done, slow[0][0] if slow else 0,
             total.maxerr, time.time() - t0,
             ", truncated" if truncated else ""))
    return 0
