"""High-precision reference for Fermi-Dirac functions."""
from decimal import Decimal as D, getcontext, localcontext
import math
import numpy as np

PREC = 80
EPS = 2.0**-52


def x_of(beta, e, mu):
    with localcontext() as c:
        c.prec = 400
        c.Emax, c.Emin = 10**15, -10**15
        m = D(float(e)) - D(float(mu))
        return +(D(float(beta))*m), m


def exact(beta, e, mu):
    """dict of x, occupation, vacancy, grand potential, its derivative."""
    x, m = x_of(beta, e, mu)
    with localcontext() as c:
        c.prec = PREC
        c.Emax, c.Emin = 10**15, -10**15
        b = D(float(beta))
        # decimal exponents are limited; beyond this everything is 0 or 1
        if x > 10**9:
            f, v, l1, l2 = D(0), D(1), D(0), x
        elif x < -10**9:
            f, v, l1, l2 = D(1), D(0), -x, D(0)
        else:
            ex, emx = x.exp(), (-x).exp()
            f = 1/(ex + 1)
            v = 1/(emx + 1)
            l1 = ln1p(emx) if x >= 0 else -x + ln1p(ex)   # ln(1+e^-x)
            l2 = ln1p(ex) if x < 0 else x + ln1p(emx)     # ln(1+e^x)
        out = dict(x=x, f=f, v=v)
        if b > 0:
            out['gp'] = -l1/b
            if x >= 0:
                out['dgp'] = l1/(b*b) + m*f/b
            else:       # same thing without cancellation
                out['dgp'] = l2/(b*b) - m*v/b
        return out


def ln1p(y):
    """ln(1+y) for y in [0, 1]."""
    with localcontext() as c:
        c.prec = PREC
        if y < D(10)**-30:
            return y - y*y/2 + y*y*y/3
        return (1 + y).ln()


def err(got, want):
    """|got - want| as float (got is a float)."""
    got = float(got)
    if math.isnan(got) or math.isinf(got):
        return float('inf')
    with localcontext() as c:
        c.prec = PREC
        c.Emax, c.Emin = 10**15, -10**15
        d = abs(D(got) - want)
        return fl(d)


def fl(d):
    if d == 0:
        return 0.0
    a = d.adjusted()
    if a < -320:
        return 0.0
    if a > 308:
        return float('inf')
    return float(d)


BRANCH = [0.0, 1.0, 5.0, 10.0, 15.0, 18.0, 20.0, 25.0, 30.0, 35.0, 36.0,
          36.7368, 37.0, 40.0, 50.0, 100.0, 300.0, 500.0, 600.0, 690.0, 700.0,
          708.0, 709.5, 710.0, 720.0, 744.0, 745.2, 746.0, 750.0, 800.0, 1e3,
          1e4, 1e6, 1e10]


def points(rng, n, betas='wide'):
    """Arguments (beta, e, mu) covering branch points, tails, cancellation."""
    out = []
    for k in range(n):
        u = rng.random()
        beta = float(10**rng.uniform(-4, 4)) if rng.random() < 0.8 else \
            float(10**rng.uniform(-60, 60))
        if rng.random() < 0.1:
            beta = float(rng.integers(1, 20))
        s = 1.0 if rng.random() < 0.5 else -1.0
        if u < 0.35:        # near a branch point, either side
            b = BRANCH[int(rng.integers(len(BRANCH)))]
            x = s*b + float(rng.choice([0.0, 1e-12, -1e-12, 1e-6, -1e-6, 0.3,
                                        -0.3, 1e-15, -1e-15]))
        elif u < 0.6:
            x = s*float(rng.uniform(0, 45))
        elif u < 0.75:
            x = s*float(10**rng.uniform(-20, 3))
        elif u < 0.9:
            x = s*float(rng.uniform(0, 800))
        else:
            x = s*float(10**rng.uniform(3, 12))
        w = rng.random()
        m = x/beta
        if w < 0.4:
            mu, e = 0.0, m
        elif w < 0.7:
            mu = float(rng.normal())*abs(m)
            e = mu + m
        elif w < 0.85:      # strong cancellation
            mu = m*float(10**rng.uniform(0, 8))
            if rng.random() < 0.5 and 1e-290 < abs(mu) < 1e290:
                # the level next to a chemical potential that is a power of
                # two: the spacing of numbers differs on both sides
                mu = math.copysign(2.0**round(math.log2(abs(mu))),
                                   rng.random() - 0.5)
            e = mu + m
        else:
            e = float(rng.normal())
            mu = e - m
        out.append((beta, float(e), float(mu)))
    return out
