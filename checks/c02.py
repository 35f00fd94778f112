"""C02: ring and ladder CCD."""
import numpy as np
from mon import workload, cc, ref, gen, lib, harness

ID = "C02"
RULE = ("random antisymmetric integrals and amplitudes over a grid of "
        "(occupied, virtual) dimensions x real/complex x profile x layout, "
        "each evaluated twice with the same array objects refilled.  Ring "
        "steps also feed pair-symmetric amplitudes that are not "
        "antisymmetric, as ring iterations produce them.  Distinct = "
        "(function, dimensions, dtype, profile, layout, amplitude symmetry); "
        "non-trivial = reference not identically zero")
ASSUMPTIONS = ["integrals are antisymmetric"]


def cases(tier, seed):
    if tier == 'quick':
        return workload.so_cases(tier, seed, ID, 12, 8, 3)
    return workload.so_cases(tier, seed, ID, 20, 15, 4)


def required(tier):
    return ["%s:%s" % (f, c) for f in ('ccd_ladder_simple', 'ccd_ring_simple',
                                       'ring iteration')
            for c in 'zd']


def evaluate(p, m, case, step):
    from cqcpy import cc_equations as ce
    no, nv = case['no'], case['nv']
    kw = dict(tol=1e-11, mag=p.mag(), cover=workload.cov(case))
    reg = workload.regime(case) + (' reused' if step else '')
    got = m.call('ccd_ladder_simple', getattr(ce, 'ccd_ladder_simple', None),
                 p.I, p.T2)
    want = ref.ladder_ccd(p.v, p.t2, no)
    if m.equal('ccd_ladder_simple', got, want, regime=reg, **kw) \
            and np.size(got):
        g = np.asarray(got)
        m.equal('ladder antisymmetry', (g.transpose(1, 0, 2, 3),
                                        g.transpose(0, 1, 3, 2)),
                (-g, -g), regime=reg, **kw)
    got = m.call('ccd_ring_simple', getattr(ce, 'ccd_ring_simple', None),
                 p.I, p.T2)
    m.equal('ccd_ring_simple', got, ref.ring_ccd(p.v, p.t2, no), regime=reg,
            **kw)
    # a ring iteration leaves the antisymmetric space
    x = gen.rnd(p.rng, p.t2.shape, 0.3*max(lib.mag(p.t2), 0.1), case['cplx'])
    x = x + x.transpose(1, 0, 3, 2)
    p.T2[...] = x
    got = m.call('ccd_ring_simple', getattr(ce, 'ccd_ring_simple', None),
                 p.I, p.T2)
    m.equal('ring iteration', got, ref.ring_ccd(p.v, x, no), regime=reg, **kw)
    p.T2[...] = p.t2


def run_case(case, m):
    p = cc.SO(case)
    evaluate(p, m, case, 0)
    p.refill()
    evaluate(p, m, case, 1)
