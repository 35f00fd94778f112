"""C01: spin-orbital amplitude residuals against operator algebra."""
import numpy as np
from mon import workload, cc, fock, ref, lib

ID = "C01"
RULE = ("random spin-orbital problems over a grid of (occupied, virtual) "
        "dimensions x real/complex x data profile x memory layout; each step "
        "evaluates all amplitude equations twice, the second time with new "
        "values in the same array objects.  A comparison is one returned "
        "residual pair against the projection of e^-T H e^T; non-trivial = "
        "reference not identically zero; distinct = (function, dimensions, "
        "dtype, profile, layout)")
ASSUMPTIONS = ["amplitudes and integrals are antisymmetric",
               "floating-point agreement to 1e-11 of the largest element"]
FUNCS = ['ccsd_simple', 'ccsd_stanton', 'ccd_simple', 'ccd_stanton',
         'lccd_simple', 'lccsd_simple']


def cases(tier, seed):
    if tier == 'quick':
        return workload.so_cases(tier, seed, ID, 10, 6, 2)
    return workload.so_cases(tier, seed, ID, 16, 10, 4)


def required(tier):
    return ["%s:%s" % (f, c) for f in FUNCS for c in 'zd']


def evaluate(p, m, case, step):
    from cqcpy import cc_equations as ce
    f, v, t1, t2 = p.f, p.v, p.t1, p.t2
    no, nv = case['no'], case['nv']
    z = np.zeros_like(t1)
    small = no + nv <= 6
    if small:
        c = fock.CC(no, nv)
        _, r1, r2 = c.residuals(f, v, t1, t2)
        _, _, d2 = c.residuals(f, v, z, t2)
        _, q1, q2 = c.linear_residuals(f, v, t1, t2)
        _, _, k2 = c.linear_residuals(f, v, z, t2)
        m.note('oracle: second quantisation')
    else:
        _, r1, r2 = ref.ccsd_residuals(f, v, t1, t2)
        _, _, d2 = ref.ccsd_residuals(f, v, z, t2)
        q1, q2 = ref.lccsd_residuals(f, v, t1, t2)
        _, k2 = ref.lccsd_residuals(f, v, z, t2)
        m.note('oracle: dressed Hamiltonian')
    want = dict(ccsd_simple=(r1, r2), ccsd_stanton=(r1, r2),
                ccd_simple=(d2,), ccd_stanton=(d2,), lccd_simple=(k2,),
                lccsd_simple=(q1, q2))
    kw = dict(tol=1e-11, mag=p.mag(),
              regime=workload.regime(case) + (' reused' if step else ''),
              cover=workload.cov(case))
    for name in FUNCS:
        fn = getattr(ce, name, None)
        args = (p.F, p.I, p.T2) if name in ('ccd_simple', 'ccd_stanton',
                                            'lccd_simple') \
            else (p.F, p.I, p.T1, p.T2)
        got = m.call(name, fn, *args)
        m.equal(name, got, want[name], **kw)


def run_case(case, m):
    p = cc.SO(case)
    evaluate(p, m, case, 0)
    p.refill()
    evaluate(p, m, case, 1)
