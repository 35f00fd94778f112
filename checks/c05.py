"""C05: unrestricted and restricted Lambda equations."""
from mon import workload, cc, spin

ID = "C05"
RULE = ("as C03 with random Lambda amplitudes; comparison of all spin blocks "
        "with the embedded derivative of the Lagrangian; distinct = "
        "(function, dimensions, dtype, profile, layout, history)")
ASSUMPTIONS = ["same-spin tensors antisymmetric; closed-shell tensors "
               "pair-symmetric"]


def cases(tier, seed):
    if tier == 'quick':
        return workload.u_cases(tier, seed, ID, 9, 6, 2)
    return workload.u_cases(tier, seed, ID, 14, 8, 3)


def required(tier):
    return ["%s:%s" % (f, c) for f in ('uccsd_lambda_opt', 'rccsd_lambda_opt',
                                       'closed-shell alias') for c in 'zd']


def evaluate(p, m, case, step):
    from cqcpy import cc_equations as ce
    d = p.d
    o = cc.so_oracle(*p.so, mon=m)
    s1 = spin.split_amp1(d, o['lam1'], 'L')
    s2 = spin.split_amp2(d, o['lam2'], 'L')
    kw = dict(tol=1e-11, mag=p.mag(),
              regime=workload.uregime(case) + (' reused' if step else ''),
              cover=workload.cov(case))
    if p.r:
        got = m.call('rccsd_lambda_opt', getattr(ce, 'rccsd_lambda_opt', None),
                     p.F, p.I, p.L1, p.L2, p.T1, p.T2)
        m.equal('rccsd_lambda_opt', got, (s1[0], s2[1]), **kw)
    else:
        got = m.call('uccsd_lambda_opt', getattr(ce, 'uccsd_lambda_opt', None),
                     p.Fa, p.Fb, p.Ia, p.Ib, p.Iab, p.L1, p.L2, p.T1, p.T2)
        what = 'closed-shell alias' if case['mode'] == 'ur' \
            else 'uccsd_lambda_opt'
        m.equal(what, got, (s1, s2), **kw)


def run_case(case, m):
    p = cc.UR(case)
    evaluate(p, m, case, 0)
    p.refill()
    evaluate(p, m, case, 1)
