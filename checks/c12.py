"""C12: Fermi-Dirac occupations."""
import math
import numpy as np
from mon import harness, fermi, lib

ID = "C12"
RULE = ("arguments concentrated on branch points, tails, cancelling energies "
        "and extreme temperatures, plus random ones; occupation and vacancy "
        "compared with an 80-digit evaluation; sum, range, monotonicity, "
        "vector forms and the temperature conversion observed separately; "
        "distinct = (function, interval of beta*(e-mu), argument type)")
ASSUMPTIONS = ["relative accuracy 2e-13 plus the unavoidable amplification "
               "of rounding in the argument, |x| * 1e-15"]


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    n = 900 if tier == 'quick' else 2500
    out = [dict(kind='points', n=100, seed=int(rng.integers(2**31)))
           for _ in range(n)]
    out += [dict(kind='vector', n=k, seed=int(rng.integers(2**31)))
            for k in list(range(0, 8)) + [40, 200]
            for _ in range(12 if tier == 'quick' else 30)]
    out[:0] = [dict(kind='vector', n=k, seed=int(rng.integers(2**31)))
               for k in (600, 1100, 2100)]
    out += [dict(kind='mono', sign=s, beta=b, seed=int(rng.integers(2**31)))
            for s in (-1, 1) for b in (0.3, 1.0, 7.0, 250.0)]
    out += [dict(kind='extreme', seed=0), dict(kind='htok', seed=int(
        rng.integers(2**31)))]
    return out


def interval(x):
    a = abs(x)
    for b in (1e-8, 1, 10, 20, 30, 36, 40, 100, 500, 700, 745, 1e4):
        if a <= b:
            return ('-' if x < 0 else '+') + 'le%g' % b
    return ('-' if x < 0 else '+') + 'huge'


def required(tier):
    out = []
    for f in ('fermi_function', 'vfermi_function'):
        for b in ('le1', 'le10', 'le20', 'le30', 'le36', 'le40', 'le100',
                  'le500', 'le700', 'le745', 'le10000', 'huge'):
            out += ["%s:-%s" % (f, b), "%s:+%s" % (f, b)]
    return out + ['ff', 'ffv', 'HtoK', 'sum', 'range', 'monotone', 'extreme']


def conv(rng, x):
    """The same number as another scalar type."""
    k = int(rng.integers(4))
    if k == 1:
        return np.float64(x)
    if k == 2 and float(x).is_integer() and abs(x) < 1e9:
        return int(x)
    if k == 3:
        return np.array([x])[0]
    return float(x)


def run_case(case, m):
    from cqcpy import ft_utils as ft
    rng = harness.rng_of(case['seed'], case['kind'])
    F = getattr(ft, 'fermi_function', None)
    V = getattr(ft, 'vfermi_function', None)
    if case['kind'] == 'points':
        for beta, e, mu in fermi.points(rng, case['n']):
            ref = fermi.exact(beta, e, mu)
            x = fermi.fl(ref['x']) if ref['x'] >= 0 else -fermi.fl(-ref['x'])
            args = [conv(rng, a) for a in (beta, e, mu)]
            got = {}
            for name, fn, key in (('fermi_function', F, 'f'),
                                  ('vfermi_function', V, 'v')):
                y = m.call(name, fn, *args)
                if y is harness.FAILED:
                    continue
                want = ref[key]
                tol = 2e-13 + 1e-15*min(abs(x), 1e4)
                lim = tol*fermi.fl(want) + 1e-307
                try:
                    d = fermi.err(y, want)
                except Exception:
                    d = float('inf')
                m.maxerr = max(m.maxerr, d/lim) if d <= lim else m.maxerr
                m.check(name, d <= lim, "%s(%r, %r, %r) = %r, exact %.17e "
                        "(x=%.6g, error %.2e, allowed %.2e)"
                        % (name, beta, e, mu, y, fermi.fl(want), x, d, lim),
                        regime=interval(x), cover=(interval(x),))
                got[key] = float(y)
            if len(got) == 2:
                m.check('sum', abs(got['f'] + got['v'] - 1.0) < 1e-14,
                        "f+v = %r at x=%.17g" % (got['f'] + got['v'], x),
                        regime=interval(x))
                m.check('range', 0.0 <= got['f'] <= 1.0
                        and 0.0 <= got['v'] <= 1.0,
                        "f=%r v=%r at x=%.17g" % (got['f'], got['v'], x),
                        regime=interval(x))
    elif case['kind'] == 'vector':
        pts = fermi.points(rng, max(case['n'], 1))
        beta, mu = pts[0][0], pts[0][2]
        if rng.random() < 0.7:
            beta, mu = float(10**rng.uniform(-1, 3)), float(rng.normal())
        e = np.array([mu + p[1] - p[2] for p in pts][:case['n']])
        if case['n'] > 3:
            e[0], e[1] = mu + 31/beta, mu - 31/beta
        for lo in ('c', 'stride', 'neg'):
            for name, fn, key in (('ff', getattr(ft, 'ff', None), 'f'),
                                  ('ffv', getattr(ft, 'ffv', None), 'v')):
                y = m.call(name, fn, beta, lib.lay(rng, e, lo), mu)
                if y is harness.FAILED:
                    continue
                if not m.check(name + ' shape', np.shape(y) == e.shape,
                               "shape %s for %s" % (np.shape(y), e.shape)):
                    continue
                bad = None
                for k in range(e.size):
                    ref = fermi.exact(beta, e[k], mu)
                    x = min(abs(fermi.fl(abs(ref['x']))), 1e4)
                    lim = (2e-13 + 1e-15*x)*fermi.fl(ref[key]) + 1e-307
                    if not fermi.err(y[k], ref[key]) <= lim:
                        bad = (k, y[k], fermi.fl(ref[key]))
                m.check(name, bad is None, "element %r beta=%r mu=%r e=%r"
                        % (bad, beta, mu, e.tolist()),
                        regime='n=%d %s' % (e.size, lo),
                        nontrivial=e.size > 0)
        # integer energies, temperatures and potentials
        ei = rng.integers(-4, 5, int(rng.integers(1, 8)))
        b, mm = [(1.0, 0.0), (0.7, 0.2), (2, 1), (1, 0)][int(rng.integers(4))]
        for name, key in (('ff', 'f'), ('ffv', 'v')):
            y = m.call(name, getattr(ft, name, None), b, ei, mm)
            m.equal(name, y, np.array([float(fermi.exact(float(b), float(k),
                                                         float(mm))[key])
                                       for k in ei]),
                    tol=1e-13, regime='integer energies')
    elif case['kind'] == 'mono':
        b = case['beta']
        g = []
        for c in fermi.BRANCH:
            for dx in np.linspace(-0.5, 0.5, 41):
                g.append(case['sign']*c + dx)
        g = sorted(g)
        prev = None
        for x in g:
            f = m.call('fermi_function', F, b, x/b, 0.0)
            v = m.call('vfermi_function', V, b, x/b, 0.0)
            if f is harness.FAILED or v is harness.FAILED:
                return
            if prev is not None:
                x0, f0, v0 = prev
                # real steps are far larger than rounding
                m.check('monotone', f <= f0*(1 + 3e-13)
                        and v >= v0*(1 - 3e-13),
                        "not monotone between x=%.17g and %.17g: f %r -> %r, "
                        "v %r -> %r" % (x0, x, f0, f, v0, v),
                        regime=interval(x))
            prev = (x, f, v)
    elif case['kind'] == 'extreme':
        for beta, e, mu, f, v in [
                (0.0, 1.0, 0.0, 0.5, 0.5), (1.0, 0.0, 0.0, 0.5, 0.5),
                (1e200, 1e200, 0.0, 0.0, 1.0), (1e200, -1e200, 0.0, 1.0, 0.0),
                (1e308, 10.0, -10.0, 0.0, 1.0), (1.0, 1e308, 0.0, 0.0, 1.0),
                (1.0, -1e308, 0.0, 1.0, 0.0), (1e-300, 1e-300, 0.0, 0.5, 0.5),
                (0.0, 5.0, 5.0, 0.5, 0.5), (1e16, 1.0, 1.0, 0.5, 0.5),
                (1.0, 1e5, 0.0, 0.0, 1.0), (1.0, -1e5, 0.0, 1.0, 0.0)]:
            a = m.call('fermi_function', F, beta, e, mu)
            b = m.call('vfermi_function', V, beta, e, mu)
            if a is harness.FAILED or b is harness.FAILED:
                continue
            m.check('extreme', a == f and b == v or
                    (abs(a - f) < 1e-15 and abs(b - v) < 1e-15),
                    "(%r, %r, %r) gives %r, %r, expected %r, %r"
                    % (beta, e, mu, a, b, f, v), regime=repr((beta, e, mu)))
    elif case['kind'] == 'htok':
        fn = getattr(ft, 'HtoK', None)
        for T in [1.0, 0.0, -2.0, 1e-3, 3.5, 1e6] + \
                [float(x) for x in rng.normal(size=20)]:
            y = m.call('HtoK', fn, T)
            m.equal('HtoK', y, T*315775.08, tol=1e-6, regime='scalar')
        a = rng.normal(size=5)
        y = m.call('HtoK', fn, a)
        m.equal('HtoK', y, a*315775.08, tol=1e-6, regime='vector')
