"""C04: spin-orbital Lambda equations."""
import numpy as np
from mon import workload, cc, lib

ID = "C04"
RULE = ("random spin-orbital problems over a grid of (occupied, virtual) "
        "dimensions x real/complex x profile x layout.  Each step evaluates "
        "all Lambda variants, then again with new values in the same array "
        "objects; one precomputed-intermediates object serves several Lambda "
        "vectors.  Comparison against the derivative of the Lagrangian; "
        "distinct = (function, dimensions, dtype, profile, layout, history)")
ASSUMPTIONS = ["amplitudes and integrals are antisymmetric",
               "the doubles-only equation is evaluated with a diagonal-free "
               "singles space (T1 = L1 = 0)"]
VARIANTS = ['ccsd_lambda_simple', 'ccsd_lambda_opt', 'ccsd_lambda_stanton']


def cases(tier, seed):
    if tier == 'quick':
        return workload.so_cases(tier, seed, ID, 10, 6, 2)
    return workload.so_cases(tier, seed, ID, 14, 9, 3)


def required(tier):
    return ["%s:%s" % (f, c) for f in VARIANTS + [
        'ccsd_lambda_opt_int', 'ccsd_lambda_opt_int again',
        'ccd_lambda_simple'] for c in 'zd']


def evaluate(p, m, case, step):
    from cqcpy import cc_equations as ce
    f, v, t1, t2, l1, l2 = p.f, p.v, p.t1, p.t2, p.l1, p.l2
    o = cc.so_oracle(f, v, t1, t2, l1, l2, mon=m)
    want = (o['lam1'], o['lam2'])
    kw = dict(tol=1e-11, mag=p.mag(),
              regime=workload.regime(case) + (' reused' if step else ''),
              cover=workload.cov(case))
    for name in VARIANTS:
        got = m.call(name, getattr(ce, name, None), p.F, p.I, p.L1, p.L2,
                     p.T1, p.T2)
        m.equal(name, got, want, **kw)
    z1, y1 = np.zeros_like(t1), np.zeros_like(l1)
    od = cc.so_oracle(f, v, z1, t2, y1, l2)
    got = m.call('ccd_lambda_simple', getattr(ce, 'ccd_lambda_simple', None),
                 p.F, p.I, p.L2, p.T2)
    m.equal('ccd_lambda_simple', got, (od['lam2'],), **kw)
    # one intermediates object, several Lambda vectors
    name = 'ccsd_lambda_opt_int'
    fn = getattr(ce, name, None)
    intor = m.call('lambda_int', getattr(ce, 'lambda_int', None), p.F, p.I,
                   p.T1, p.T2)
    if type(intor).__name__ == 'Failed':
        return
    got = m.call(name, fn, p.F, p.I, p.L1, p.L2, p.T1, p.T2, intor)
    m.equal(name, got, want, **kw)
    k1, k2 = 0.5*l1 + 0.1, l2*(-1.5)
    if case['cplx']:
        k1 = k1*(0.6 + 0.8j)
    p.L1[...], p.L2[...] = k1, k2
    o2 = cc.so_oracle(f, v, t1, t2, k1, k2)
    got2 = m.call(name, fn, p.F, p.I, p.L1, p.L2, p.T1, p.T2, intor)
    m.equal(name + ' again', got2, (o2['lam1'], o2['lam2']), **kw)
    p.L1[...], p.L2[...] = l1, l2
    got3 = m.call(name, fn, p.F, p.I, p.L1, p.L2, p.T1, p.T2, intor)
    m.equal(name + ' again', got3, want, **kw)


def run_case(case, m):
    p = cc.SO(case)
    evaluate(p, m, case, 0)
    p.refill()
    evaluate(p, m, case, 1)
