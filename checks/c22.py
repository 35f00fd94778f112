"""C22: purity and absence of hidden state."""
import random
import numpy as np
from mon import harness, lib, registry as rg

ID = "C22"
RULE = ("histories: every public function is called in random order on "
        "arguments of one size class and dtype, then again after all earlier "
        "results were overwritten, with read-only arrays, with other memory "
        "layouts, and with new values in the same array objects (also immediately after a call with the old values).  Observed "
        "per call: argument snapshots (arrays, containers, strings, mean "
        "fields, surrounding memory of views), state of the global random "
        "generators, result against the first result of the history; "
        "distinct = (observation, function, size class, dtype)")
ASSUMPTIONS = ["equal means 1e-11 relative to the largest element (memory "
               "layout may change the order of summation)",
               "whether a result is a view of an argument is not specified"]

LARGE = [(5, 4, 5, 6), (3, 3, 7, 7)]


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    q = tier == 'quick'
    out = []
    for rep in range(2 if q else 12):
        out.append(dict(kind='ints', seed=int(rng.integers(10**6))))
    for rep in range(2 if q else 25):
        for s in rg.SIZES:
            for z in (False, True):
                out.append(dict(kind='num', size=list(s), cplx=z,
                                seed=int(rng.integers(10**6))))
    # other data and sizes beyond the usual thresholds
    for rep in range(1 if q else 4):
        for prof in rg.PROFILES:
            s = [(2, 2, 2, 2), (2, 2, 3, 3), (2, 1, 2, 3)]
            s = s[int(rng.integers(2 if prof in ('equal', 'shared') else 3))]
            if prof.startswith('partly'):
                s = (3, 3, 3, 3)
            out.append(dict(kind='num', size=list(s), prof=prof,
                            cplx=bool(rng.random() < 0.4),
                            seed=int(rng.integers(10**6))))
        for s in LARGE:
            for z in [len(out) % 2 == 0] if q else (False, True):
                out.append(dict(kind='num', size=list(s), cplx=z,
                                seed=int(rng.integers(10**6))))
    out.sort(key=lambda c: -sum(c.get('size', ())))
    return out


def names():
    harness.load_library()
    a = [r[0].split('#')[0] for r in rg.recipes(0, rg.SIZES[0], False)]
    return sorted(set(a))


def required(tier):
    out = []
    for n in names():
        for w in ('inputs unchanged', 'again', 'layout', 'reused arrays',
                  'refilled arrays', 'read-only'):
            out.append(w + ':' + n)
    for n in ('get_chem', 'get_physu_all_gen', 'eri_blocks', 'get_chem_sol',
              'get_solk_integrals'):
        out += ['inputs unchanged:' + n, 'again:' + n, 'reused arrays:' + n]
    return out + ['earlier results intact', 'random state']


def memory(x):
    """Arrays and the memory around views."""
    out = []
    for y in rg.arrays(x):
        out.append(y)
        b = y.base
        if isinstance(b, np.ndarray):
            out.append(b)
    return out


def scribble(res, args):
    """Overwrite everything in a result that is not a view of an input."""
    ins = rg.arrays(args)
    hit = 0
    for y in rg.arrays(res):
        if y.size == 0 or not y.flags.writeable:
            continue
        if any(np.may_share_memory(y, x) for x in ins):
            continue
        y[...] = 77 if y.dtype.kind in 'iub' else -7.7e7
        hit += 1

    def lists(x, depth=0):
        if isinstance(x, list):
            x.reverse()
            x.append(None)
        elif isinstance(x, tuple) and depth < 3:
            for y in x:
                lists(y, depth + 1)
    lists(res)
    return hit


def run_case(case, m):
    rng = harness.rng_of(case['seed'], case['kind'])
    if case['kind'] == 'ints':
        make = lambda s: rg.integral_recipes(s)
        reg = 'integrals'
    else:
        make = lambda s: rg.recipes(s, case['size'], case['cplx'],
                                    case.get('prof'))
        reg = '%s %s' % ('.'.join(map(str, case['size'])),
                         'z' if case['cplx'] else 'd')
        reg += ' ' + case['prof'] if case.get('prof') else ''
    R = make(case['seed'])
    base, live = {}, {}
    for k in rng.permutation(len(R)):
        name, fn, args, kw = R[k]
        short = name.split('#')[0]
        before = rg.freeze((args, kw))
        around = [x.copy() for x in memory((args, kw))]
        st, pst = np.random.get_state(), random.getstate()
        res = m.call(short, fn, *args, **kw)
        if res is harness.FAILED:
            continue
        d = rg.differ(before, rg.freeze((args, kw)))
        if d is None:
            for x, y in zip(around, memory((args, kw))):
                if not np.array_equal(x, y, equal_nan=x.dtype.kind in 'fc'):
                    d = "memory around an argument changed"
        m.check('inputs unchanged', d is None, "%s: %s" % (name, d),
                regime=short + ' ' + reg, cover=(short,))
        s2 = np.random.get_state()
        m.check('random state', st[0] == s2[0] and st[2:] == s2[2:] and
                np.array_equal(st[1], s2[1]) and pst == random.getstate(),
                "%s changed the state of a global random generator" % name,
                regime=short)
        base[name], live[name] = rg.freeze(res), res
    for name, res in live.items():
        d = rg.differ(base[name], rg.freeze(res))
        m.check('earlier results intact', d is None,
                "result of %s was changed by later calls: %s" % (name, d),
                regime=name.split('#')[0] + ' ' + reg)
    n = 0
    for name, fn, args, kw in R:
        if name in live:
            n += scribble(live[name], (args, kw))
    m.note('result arrays overwritten', n)

    def same(what, name, res):
        if res is harness.FAILED:
            return
        short = name.split('#')[0]
        d = rg.differ(base[name], rg.freeze(res), exact=False, tol=1e-11)
        m.check(what, d is None, "%s: %s" % (name, d),
                regime=short + ' ' + reg, cover=(short,))

    def ro(x):
        y = x.copy()
        y.flags.writeable = False
        return y
    lays = lambda x: lib.lay(rng, x, 'mix')
    for what, f in (('again', None), ('read-only', ro), ('layout', lays),
                    ('again', None)):
        R2 = make(case['seed'])
        for k in rng.permutation(len(R2)):
            name, fn, args, kw = R2[k]
            if name not in base:
                continue
            if f is not None:
                memo = {}
                args, kw = rg.relay(args, f, memo), rg.relay(kw, f, memo)
            b4 = rg.freeze((args, kw)) if what == 'layout' else None
            around = [x.copy() for x in memory((args, kw))] if b4 else []
            res = m.call(name.split('#')[0], fn, *args, **kw)
            same(what, name, res)
            if b4 is not None:
                d = rg.differ(b4, rg.freeze((args, kw)))
                if d is None and not all(
                        np.array_equal(x, y) for x, y in
                        zip(around, memory((args, kw)))):
                    d = "memory around an argument changed"
                m.check('inputs unchanged', d is None, "%s: %s" % (name, d),
                        regime=name.split('#')[0] + ' laid ' + reg)
    # calls that fail change nothing either
    for k in rng.permutation(len(R)) if case['kind'] != 'ints' else ():
        name, fn, args, kw = R[k]
        bad = rg.spoil(rng, (args, kw))
        if bad is None or name not in base:
            continue
        b4 = rg.freeze(bad)
        try:
            fn(*bad[0], **bad[1])
            continue
        except Exception:
            pass
        d = rg.differ(b4, rg.freeze(bad))
        m.check('inputs unchanged', d is None, "%s, a call that raises: %s"
                % (name, d), regime=name.split('#')[0] + ' refused ' + reg)
        same('again', name, m.call(name.split('#')[0], fn, *args, **kw))
    # new values in the arrays of the first history
    other = make(case['seed'] + 3)
    R3 = make(case['seed'] + 3)
    old = {r[0]: r for r in R}
    for name, fn, args, kw in R3:
        if name not in old:
            continue
        short = name.split('#')[0]
        want = m.call(short, fn, *args, **kw)
        if want is harness.FAILED:
            continue
        base[name] = rg.freeze(want)
    oth = {r[0]: r for r in other}
    for k in rng.permutation(len(R)):
        name = R[k][0]
        if name not in oth or name not in base:
            continue
        fn = oth[name][1]
        args = rg.merge(R[k][2], oth[name][2])
        kw = rg.merge(R[k][3], oth[name][3])
        # also call with the old values' shapes in between: the arrays are
        # shared between functions, so every refill touches many arguments
        res = m.call(name.split('#')[0], fn, *args, **kw)
        same('reused arrays', name, res)
    # the same array objects twice in a row with other values: a memory of
    # only the last call shows
    R5 = make(case['seed'] + 5)
    for name, fn, args, kw in R5:
        if name in base:
            want = m.call(name.split('#')[0], fn, *args, **kw)
            if want is not harness.FAILED:
                base[name] = rg.freeze(want)
    new = {r[0]: r for r in make(case['seed'] + 5)}
    for k in rng.permutation(len(R)):
        name = R[k][0]
        if name not in oth or name not in new or name not in base:
            continue
        short = name.split('#')[0]
        args = rg.merge(R[k][2], oth[name][2])
        kw = rg.merge(R[k][3], oth[name][3])
        m.call(short, oth[name][1], *args, **kw)
        args = rg.merge(R[k][2], new[name][2])
        kw = rg.merge(R[k][3], new[name][3])
        same('refilled arrays', name,
             m.call(short, new[name][1], *args, **kw))
    if case['kind'] == 'num':
        cov = set(r[0].split('#')[0] for r in R)
        for x in sorted(rg.public() - cov):
            if not x.startswith('get_') and x != 'eri_blocks':
                m.note('public but not driven here: ' + x)
