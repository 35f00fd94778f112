"""C30: number types."""
import numpy as np
from mon import harness, registry as rg

ID = "C30"
RULE = ("every public function on data that are exactly representable in "
        "all number types (small multiples of 1/8 or integers), given as "
        "double, single, 64-, 32- and 16-bit integers, complex "
        "double, complex single, complex without imaginary part, and "
        "conjugated; results compared with those for double precision; "
        "distinct = (function, number type, size class)")
ASSUMPTIONS = ["long double is left out: the optional package's contraction "
               "routine corrupts memory for empty complex arrays of it",
               "an exception is an accepted answer to integer arrays only",
               "the type of a result is specified only as far as it decides "
               "between real and complex"]
SIZES = rg.SIZES + [(3, 3, 3, 3), (2, 4, 3, 1)]
REAL = dict(single=np.float32, int64=np.int64,
            int32=np.int32, int16=np.int16, complex=np.complex128,
            csingle=np.complex64)
CPLX = dict(single=np.complex64)


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    out = []
    for rep in range(4 if tier == 'quick' else 40):
        for s in SIZES:
            for z in (False, True):
                out.append(dict(size=list(s), cplx=z, whole=bool(rep % 2),
                                seed=int(rng.integers(10**6))))
        for s, p in ((4, 3, 4, 5), None), ((2, 2, 3, 3), 'herm'), \
                ((2, 2, 2, 2), 'equal'), ((3, 3, 2, 2), 'shared'):
            out.append(dict(size=list(s), cplx=bool(rng.random() < 0.5),
                            whole=bool(rep % 2), prof=p,
                            seed=int(rng.integers(10**6))))
    return out


def required(tier):
    harness.load_library()
    out = []
    for n in sorted(set(r[0].split('#')[0]
                        for r in rg.recipes(0, rg.SIZES[0], False))):
        out += ['real stays real:' + n, 'single:' + n,
                'complex:' + n, 'conjugate:' + n]
    return out + ['int64', 'int32', 'int16', 'csingle']


def values(res):
    """Flat list of the numbers of a result."""
    out = []
    for p, y in rg.walk(res):
        if isinstance(y, (np.ndarray, np.generic, int, float, complex)) \
                and not isinstance(y, bool):
            y = np.asarray(y)
            if y.dtype.kind in 'iufcb':
                out.append((p, y))
    return out


def compare(got, want, tol, mag):
    """First difference, values only."""
    a, b = values(got), values(want)
    if [p for p, _ in a] != [p for p, _ in b]:
        return "structure differs"
    big = max([mag] + [float(np.abs(y).max()) for _, y in b if y.size])
    for (p, x), (_, y) in zip(a, b):
        if x.shape != y.shape:
            return "%s: shape %s instead of %s" % (p, x.shape, y.shape)
        if x.size == 0:
            continue
        if y.dtype.kind in 'iub' and x.dtype.kind in 'iub':
            if not np.array_equal(x, y):
                return "%s: counts differ" % p
            continue
        d = np.abs(x.astype(np.complex128) - y.astype(np.complex128)).max()
        if not d <= tol*big:
            return "%s: differs by %.3g (largest value %.3g)" % (p, d, big)
    return None


def run_case(case, m):
    rng = harness.rng_of(case['seed'], 'types')
    z = case['cplx']
    unit = 1.0 if case['whole'] else 8.0
    reg = '.'.join(map(str, case['size'])) + (' z' if z else ' d')

    def grid(x):
        if x.dtype.kind in 'fc':
            y = np.round(x*unit*1.5)/unit
            return y.astype(x.dtype)
        return x.copy()
    R = rg.recipes(case['seed'], tuple(case['size']), z, case.get('prof'))
    for name, fn, args, kw in R:
        short = name.split('#')[0]

        def made(f):
            memo = {}
            return (rg.relay(rg.relay(args, grid, {}), f, memo),
                    rg.relay(rg.relay(kw, grid, {}), f, memo))
        A, K = made(lambda x: x.copy())
        want = m.call(short, fn, *A, **K)
        if want is harness.FAILED:
            continue
        real = [p for p, y in values(want) if y.dtype.kind == 'c']
        if not z:
            m.check('real stays real', not real, "%s: complex result %s for "
                    "real data" % (name, real[:3]), regime=short + ' ' + reg,
                    cover=(short,))

        def conv(t):
            def f(x):
                if x.dtype.kind == 'c' and np.dtype(t).kind != 'c':
                    return x.astype(np.complex64)
                if x.dtype.kind == 'f' and np.dtype(t).kind == 'c' and z:
                    # energies and the like stay real
                    return x.astype(np.float32)
                return x.astype(t) if x.dtype.kind in 'fc' else x.copy()
            return f
        for kind, t in (CPLX if z else REAL).items():
            if 'int' in kind and not case['whole']:
                continue
            if kind in ('complex', 'csingle') and real_only(short):
                m.cover(kind + ':' + short)
                continue
            A, K = made(conv(t))
            if 'int' in kind:
                m.calls[short] += 1
                try:
                    got = fn(*A, **K)
                except Exception:
                    m.note('integers refused: ' + short)
                    continue
            else:
                got = m.call(short, fn, *A, **K)
                if got is harness.FAILED:
                    continue
            tol = 2e-4 if 'single' in kind else 1e-11
            d = compare(got, want, tol, 1.0)
            m.check(kind, d is None, "%s with %s data: %s" % (name, kind, d),
                    regime=short + ' ' + reg, cover=(short,))
        if z:
            A, K = made(lambda x: x.conj())
            got = m.call(short, fn, *A, **K)
            if got is harness.FAILED:
                continue
            d = compare(got, conj(want), 1e-11, 1.0)
            m.check('conjugate', d is None, "%s with conjugated data: %s"
                    % (name, d), regime=short + ' ' + reg, cover=(short,))


def real_only(name):
    """Functions of energies and temperatures only."""
    return name in ('D1', 'D2', 'D2u', 'ff', 'ffv', 'GP0', 'dGP0', 'uGP0')


def conj(x):
    if isinstance(x, (tuple, list)):
        return type(x)(conj(y) for y in x)
    if isinstance(x, (np.ndarray, np.generic, complex)):
        return np.conj(x)
    if rg.is_leaf(x):
        return x
    return rg.relay(x, lambda y: y.conj(), {})
