"""C03: unrestricted and restricted amplitude equations."""
from mon import workload, cc, spin, lib

ID = "C03"
RULE = ("random unrestricted problems over alpha/beta dimension sets "
        "(including unequal and zero), closed-shell problems through the "
        "restricted code, and closed-shell problems through the unrestricted "
        "code with shared array objects; each evaluated twice, the second "
        "time with new values in the same arrays.  One comparison = all spin "
        "blocks against the embedded spin-orbital residuals; distinct = "
        "(function, dimensions, dtype, profile, layout)")
ASSUMPTIONS = ["same-spin tensors antisymmetric; closed-shell tensors "
               "pair-symmetric"]


def cases(tier, seed):
    if tier == 'quick':
        return workload.u_cases(tier, seed, ID, 9, 6, 2)
    return workload.u_cases(tier, seed, ID, 12, 8, 3)


def required(tier):
    return ["%s:%s" % (f, c) for f in ('uccsd_stanton', 'rccsd_stanton')
            for c in 'zd'] + ['closed-shell alias:z', 'closed-shell alias:d']


def evaluate(p, m, case, step):
    from cqcpy import cc_equations as ce
    d = p.d
    f, v, t1, t2, l1, l2 = p.so
    o = cc.so_oracle(f, v, t1, t2, mon=m)
    s1 = spin.split_amp1(d, o['r1'])
    s2 = spin.split_amp2(d, o['r2'])
    kw = dict(tol=1e-11, mag=p.mag(),
              regime=workload.uregime(case) + (' reused' if step else ''),
              cover=workload.cov(case))
    if p.r:
        got = m.call('rccsd_stanton', getattr(ce, 'rccsd_stanton', None),
                     p.F, p.I, p.T1, p.T2)
        m.equal('rccsd_stanton', got, (s1[0], s2[1]), **kw)
    else:
        got = m.call('uccsd_stanton', getattr(ce, 'uccsd_stanton', None),
                     p.Fa, p.Fb, p.Ia, p.Ib, p.Iab, p.T1, p.T2)
        what = 'closed-shell alias' if case['mode'] == 'ur' \
            else 'uccsd_stanton'
        m.equal(what, got, (s1, s2), **kw)


def run_case(case, m):
    p = cc.UR(case)
    evaluate(p, m, case, 0)
    p.refill()
    evaluate(p, m, case, 1)
