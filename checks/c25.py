"""C25: concurrent calls."""
import sys
import threading
import numpy as np
from mon import harness, registry as rg, sched

ID = "C25"
RULE = ("pairs of library calls are run in two threads under controlled "
        "schedules: the turn changes hands at seeded source-line events "
        "(one, a few, or about every second line).  Pairs: a function with "
        "itself on different data, with itself on the very same argument "
        "objects, and with another function of the history on shared "
        "arguments; plus free-running threads with a tiny switch interval.  "
        "Observed: every result against the result of the same call alone, "
        "and the arguments after the pair; distinct = (mode, function, "
        "schedule class, size class, dtype)")
ASSUMPTIONS = ["pre-emption happens between source lines of the library",
               "the random tensor factories are excluded (they share the "
               "global generator by design)",
               "integral routines only under controlled schedules (the "
               "integral engine itself is not under test)"]
MODES = ['own data', 'same arguments', 'other function']


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    q = tier == 'quick'
    out = []
    for rep in range(1 if q else 8):
        for s in rg.SIZES[:5] if q else rg.SIZES:
            for z in (False, True):
                for part in range(4):
                    out.append(dict(kind='num', size=list(s), cplx=z,
                                    part=part,
                                    seed=int(rng.integers(10**6))))
        # beyond the usual thresholds; the same arrays for both spins
        for part in range(12):
            out.append(dict(kind='num', size=[4, 4, 5, 5], part=part, of=12,
                            cplx=bool(rng.random() < 0.4),
                            prof=[None, 'equal', 'shared'][
                                int(rng.integers(3))],
                            seed=int(rng.integers(10**6))))
        for part in range(4):
            out.append(dict(kind='num', size=[2, 2, 2, 2], part=part,
                            cplx=bool(rng.random() < 0.4), prof='shared',
                            seed=int(rng.integers(10**6))))
        for part in range(4):
            out.append(dict(kind='ints', part=part,
                            seed=int(rng.integers(10**6))))
    for rep in range(2 if q else 12):
        for z in (False, True):
            out.append(dict(kind='free', size=[3, 2, 3, 4], cplx=z,
                            seed=int(rng.integers(10**6))))
    return out


def names():
    harness.load_library()
    a = [r[0].split('#')[0] for r in rg.recipes(0, rg.SIZES[0], False)]
    return sorted(set(a))


def required(tier):
    out = ['%s:%s' % (w, n) for n in names() for w in MODES[:2]]
    return out + ['other function', 'free running', 'get_chem', 'eri_blocks']


def bind(r):
    name, fn, args, kw = r
    return lambda: fn(*args, **kw)


def run_case(case, m):
    rng = harness.rng_of(case['seed'], case['kind'], case.get('part'))
    if case['kind'] == 'free':
        return free(case, m, rng)
    if case['kind'] == 'ints':
        make, reg = rg.integral_recipes, 'integrals'
    else:
        make = lambda s: rg.recipes(s, case['size'], case['cplx'],
                                    case.get('prof'))
        reg = '%s %s' % ('.'.join(map(str, case['size'])),
                         'z' if case['cplx'] else 'd')
    A, B = make(case['seed']), make(case['seed'] + 3)
    oth = {r[0]: r for r in B}
    alone = {}
    lines = {}

    def single(tag, r):
        """Result of the call alone, and its number of line events."""
        if (tag, r[0]) not in alone:
            try:
                res, n = sched.count(bind(r))
                alone[tag, r[0]] = rg.freeze(res)
                lines[tag, r[0]] = n
            except Exception:
                # other properties judge whether the call works at all
                alone[tag, r[0]] = None
                lines[tag, r[0]] = 0
        return alone[tag, r[0]]
    todo = [k for k in range(len(A)) if k % case.get('of', 4) == case['part']]
    for k in todo:
        a = A[k]
        short = a[0].split('#')[0]
        for mode in MODES:
            if mode == 'own data':
                b, tb = oth.get(a[0]), 'b'
            elif mode == 'same arguments':
                b, tb = a, 'a'
            else:
                b, tb = A[int(rng.integers(len(A)))], 'a'
            if b is None or single('a', a) is None \
                    or single(tb, b) is None:
                continue
            na, nb = lines['a', a[0]], lines[tb, b[0]]
            for how in ('one', 'sparse', 'dense'):
                if case['kind'] == 'ints' and how == 'dense':
                    continue
                before = rg.freeze((a[2], a[3]))
                p = sched.Pair((bind(a), bind(b)),
                               (sched.stops(rng, na, how),
                                sched.stops(rng, nb, how)))
                out = p.run()
                m.calls[short] += 2
                m.note('hand-overs', p.switches)
                if p.stalled:
                    m.note('hand-overs that waited for a lock', p.stalled)
                d = None
                for (res, err), want, nm in zip(
                        out, (alone['a', a[0]], alone[tb, b[0]]),
                        (a[0], b[0])):
                    if err is not None:
                        d = "%s raised %r" % (nm, err)
                    else:
                        x = rg.differ(want, rg.freeze(res), exact=False,
                                      tol=1e-11)
                        d = d or (x and "%s: %s" % (nm, x))
                d = d or rg.differ(before, rg.freeze((a[2], a[3])))
                m.check(mode, d is None,
                        "%s with %s, switching at %s: %s"
                        % (a[0], b[0], p.path[:8], d),
                        regime='%s %s %s' % (short, how, reg),
                        cover=(short,), nontrivial=p.switches > 0
                        or na < 2 or nb < 2)
                if case['kind'] == 'ints' and p.switches:
                    m.cover(short)
                if d is not None:
                    return


def free(case, m, rng):
    """Threads without control; the interpreter switches very often."""
    nt = 4
    make = lambda s: rg.recipes(s, case['size'], case['cplx'])
    R = [make(case['seed'] + k) for k in range(nt)]
    want = []
    for k in range(nt):
        w = {}
        for r in R[k]:
            try:
                w[r[0]] = rg.freeze(bind(r)())
            except Exception:
                pass
        want.append(w)
    orders = [rng.permutation(len(R[k])) for k in range(nt)]
    got = [{} for _ in range(nt)]
    gate = threading.Barrier(nt)

    def body(k):
        gate.wait(30)
        for j in (orders[0] if case['seed'] % 2 else orders[k]):
            r = R[k][j % len(R[k])]
            try:
                got[k][r[0]] = bind(r)()
            except Exception as e:
                got[k][r[0]] = e
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=body, args=(k,), daemon=True)
              for k in range(nt)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(200)
    finally:
        sys.setswitchinterval(old)
    for k in range(nt):
        for n, w in want[k].items():
            if n not in got[k]:
                continue
            res = got[k][n]
            d = repr(res) if isinstance(res, Exception) else rg.differ(
                w, rg.freeze(res), exact=False, tol=1e-11)
            m.check('free running', d is None, "thread %d, %s: %s"
                    % (k, n, d), regime='%s %s' % (
                        n.split('#')[0], 'z' if case['cplx'] else 'd'))
