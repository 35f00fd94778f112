"""C13: grand potential and its derivative."""
import numpy as np
from mon import harness, fermi, lib
from .c12 import interval, conv

ID = "C13"
RULE = ("arguments concentrated on branch points, tails and cancelling "
        "energies; grand potential and beta-derivative compared with an "
        "80-digit evaluation; vector and two-spin forms elementwise; "
        "distinct = (function, interval of beta*(e-mu))")
ASSUMPTIONS = ["rounding accuracy means an absolute error of "
               "2e-15*(|x|+4)/beta for the potential and 4e-15*(|x|+4)/beta^2 "
               "for the derivative (terms of that size cancel)",
               "1e-60 <= beta <= 1e60"]
INT = ['le1', 'le10', 'le20', 'le30', 'le36', 'le40', 'le100', 'le500',
       'le700', 'le10000', 'huge']


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    n = 900 if tier == 'quick' else 2500
    out = [dict(kind='points', n=100, seed=int(rng.integers(2**31)))
           for _ in range(n)]
    out += [dict(kind='vector', n=k, k2=int(rng.integers(0, 9)),
                 seed=int(rng.integers(2**31)))
            for k in list(range(0, 8)) + [30, 100]
            for _ in range(15 if tier == 'quick' else 30)]
    out[:0] = [dict(kind='vector', n=k, k2=int(k*rng.uniform(0.4, 1.5)),
                    seed=int(rng.integers(2**31))) for k in (300, 600, 1100)]
    return out


def required(tier):
    return ["%s:%s%s" % (f, s, b) for f in ('grand_potential0',
                                            'dgrand_potential0')
            for s in '+-' for b in INT] + ['GP0', 'uGP0', 'dGP0', 'slope']


def limits(beta, x, key):
    a = min(abs(x), 1e300)
    if key == 'gp':
        return 2e-15*(a + 4)/beta + 1e-307
    return 4e-15*(a + 4)/beta/beta + 1e-307


def xf(ref):
    return fermi.fl(ref['x']) if ref['x'] >= 0 else -fermi.fl(-ref['x'])


def run_case(case, m):
    from cqcpy import ft_utils as ft
    rng = harness.rng_of(case['seed'], case['kind'])
    G = getattr(ft, 'grand_potential0', None)
    dG = getattr(ft, 'dgrand_potential0', None)
    if case['kind'] == 'points':
        for beta, e, mu in fermi.points(rng, case['n']):
            ref = fermi.exact(beta, e, mu)
            x = xf(ref)
            args = [conv(rng, a) for a in (beta, e, mu)]
            for name, fn, key in (('grand_potential0', G, 'gp'),
                                  ('dgrand_potential0', dG, 'dgp')):
                y = m.call(name, fn, *args)
                if y is harness.FAILED:
                    continue
                lim = limits(beta, x, key)
                try:
                    d = fermi.err(y, ref[key])
                except Exception:
                    d = float('inf')
                m.maxerr = max(m.maxerr, d/lim) if d <= lim else m.maxerr
                m.check(name, d <= lim, "%s(%r, %r, %r) = %r, exact %.17e "
                        "(x=%.6g, error %.2e, allowed %.2e)"
                        % (name, beta, e, mu, y, float(ref[key]), x, d, lim),
                        regime=interval(x), cover=(interval(x),))
                # far tails are exponentially small: relative accuracy there
                if (40 < x < 650 and key == 'gp') or \
                        (40 < abs(x) < 650 and key == 'dgp'):
                    w = float(ref[key])
                    m.check('tail of ' + name, abs(float(y) - w)
                            <= abs(w)*(1e-11 + 1e-14*abs(x)) + 1e-300,
                            "%r instead of %r at x=%r" % (y, w, x),
                            regime=interval(x))
            if 1e-3 < beta < 1e3 and abs(x) < 100:
                h = 1e-4*beta
                g = [m.call('grand_potential0', G, beta + k*h, e, mu)
                     for k in (-2, -1, 1, 2)]
                d = m.call('dgrand_potential0', dG, beta, e, mu)
                if not any(q is harness.FAILED for q in g + [d]):
                    num = (g[0] - 8*g[1] + 8*g[2] - g[3])/(12*h)
                    lim = 1e-9*(abs(x) + 1)/beta/beta
                    m.check('slope', abs(num - d) <= lim,
                            "d/dbeta %r, finite difference %r at %r"
                            % (d, num, (beta, e, mu)), regime=interval(x))
        return
    pts = fermi.points(rng, max(case['n'], case['k2'], 1))
    beta = float(10**rng.uniform(-2, 3))
    mu = float(rng.normal())
    ea = np.array([mu + (p[1] - p[2])*p[0]/beta for p in pts][:case['n']])
    eb = np.array([mu - 0.7*(p[1] - p[2])*p[0]/beta
                   for p in pts][:case['k2']])

    def judge(name, y, e, key):
        if not m.check(name + ' shape', np.shape(y) == e.shape,
                       "%s for %s" % (np.shape(y), e.shape)):
            return
        bad = None
        for k in range(e.size):
            ref = fermi.exact(beta, e[k], mu)
            if not fermi.err(y[k], ref[key]) <= limits(beta, xf(ref), key):
                bad = (k, y[k], float(ref[key]))
        m.check(name, bad is None, "element %r beta=%r mu=%r e=%r"
                % (bad, beta, mu, e.tolist()),
                regime='n=%d' % e.size, nontrivial=e.size > 0)
    for lo in ('c', 'stride', 'neg', 'related'):
        if lo == 'related':
            # beta levels close to the alpha levels
            eb = lib.kin(rng, ea)
            y = m.call('uGP0', getattr(ft, 'uGP0', None), beta, ea, eb, mu)
            if y is not harness.FAILED:
                judge('uGP0', y[0], ea, 'gp')
                judge('uGP0', y[1], eb, 'gp')
            continue
        A, B = lib.lay(rng, ea, lo), lib.lay(rng, eb, lo)
        y = m.call('GP0', getattr(ft, 'GP0', None), beta, A, mu)
        if y is not harness.FAILED:
            judge('GP0', y, ea, 'gp')
        y = m.call('dGP0', getattr(ft, 'dGP0', None), beta, A, mu)
        if y is not harness.FAILED:
            judge('dGP0', y, ea, 'dgp')
        y = m.call('uGP0', getattr(ft, 'uGP0', None), beta, A, B, mu)
        if y is not harness.FAILED:
            judge('uGP0', y[0], ea, 'gp')
            judge('uGP0', y[1], eb, 'gp')
    # integer levels
    ia, ib = rng.integers(-4, 5, 5), rng.integers(-4, 5, 3)
    for b, mm in ((0.7, 0.2), (2, 1)):
        def table(e, key):
            return np.array([float(fermi.exact(float(b), float(k),
                                               float(mm))[key]) for k in e])
        for name, key in (('GP0', 'gp'), ('dGP0', 'dgp')):
            y = m.call(name, getattr(ft, name, None), b, ia, mm)
            m.equal(name, y, table(ia, key), tol=1e-13, mag=1.0,
                    regime='integer levels')
        y = m.call('uGP0', getattr(ft, 'uGP0', None), b, ia, ib, mm)
        m.equal('uGP0', y, (table(ia, 'gp'), table(ib, 'gp')), tol=1e-13,
                mag=1.0, regime='integer levels')
