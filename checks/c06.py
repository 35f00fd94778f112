"""C06: energy functionals."""
import numpy as np
from mon import workload, cc, spin, lib, fock, gen

ID = "C06"
RULE = ("random amplitudes and integrals over spin-orbital, unrestricted and "
        "restricted dimension grids x real/complex x profile x layout; every "
        "energy function and every exposed piece compared with <0|Hbar|0> "
        "(determinant space when small) or an explicit index-loop sum; "
        "distinct = (function, dimensions, dtype, profile, layout)")
ASSUMPTIONS = ["same-spin tensors antisymmetric; closed-shell tensors "
               "pair-symmetric"]
SOF = ['cc_energy', 'mp2_energy', 'cc_energy_d', 'cc_energy_s1',
       'cc_energy_s2', 'cc_energy_s2_a', 'pieces add up']


def cases(tier, seed):
    if tier == 'quick':
        a = workload.so_cases(tier, seed, ID, 12, 8, 2)
        b = workload.u_cases(tier, seed, ID, 12, 8, 2)
    else:
        a = workload.so_cases(tier, seed, ID, 20, 10, 4)
        b = workload.u_cases(tier, seed, ID, 20, 10, 4)
    for c in a:
        c['mode'] = 'so'
    return a + b


def required(tier):
    return ["%s:%s" % (f, c) for f in SOF + ['ucc_energy', 'ump2_energy',
                                             'rcc_energy'] for c in 'zd']


def dot(x, y):
    return complex(np.sum(np.asarray(x, dtype=np.clongdouble)
                          * np.asarray(y, dtype=np.clongdouble)))


def pieces(f, v, t1, t2, no):
    """d, s1, s2 in extended precision with plain sums."""
    oovv, fov = v[:no, :no, no:, no:], f[:no, no:]
    d = 0.25*dot(t2, oovv.transpose(2, 3, 0, 1))
    s1 = dot(t1, fov.T)
    tt = t1[:, None, :, None]*t1[None, :, None, :]
    return d, s1, dot(tt, oovv.transpose(2, 3, 0, 1))


def real(x, cplx):
    return x if cplx else x.real


def run_so(case, m):
    from cqcpy import cc_energy as en
    p = cc.SO(case)
    for step in (0, 1):
        no, nv, z = case['no'], case['nv'], case['cplx']
        f, v, t1, t2 = p.f, p.v, p.t1, p.t2
        d, s1, s2 = pieces(f, v, t1, t2, no)
        if no + nv <= 6:
            E = fock.CC(no, nv).residuals(f, v, t1, t2)[0]
            m.note('oracle: second quantisation')
        else:
            E = d + s1 + 0.5*s2
            m.note('oracle: index sum')
        oovv, fov = v[:no, :no, no:, no:], f[:no, no:]
        big = lib.mag(f, v)*(np.sum(np.abs(t2)) + np.sum(np.abs(t1))**2
                             + np.sum(np.abs(t1)) + 1e-6)
        kw = dict(tol=1e-12, mag=big,
                  regime=workload.regime(case) + (' reused' if step else ''),
                  cover=workload.cov(case))
        F, V, T1, T2 = p.F.ov, p.I.oovv, p.T1, p.T2

        def g(n):
            return getattr(en, n, None)
        tot = m.call('cc_energy', g('cc_energy'), T1, T2, F, V)
        m.equal('cc_energy', tot, real(E, z), **kw)
        m.equal('mp2_energy', m.call('mp2_energy', g('mp2_energy'), T1, T2,
                                     F, V), real(d + s1, z), **kw)
        a = m.call('cc_energy_d', g('cc_energy_d'), T2, V)
        b = m.call('cc_energy_s1', g('cc_energy_s1'), T1, F)
        c = m.call('cc_energy_s2', g('cc_energy_s2'), T1, V)
        m.equal('cc_energy_d', a, real(d, z), **kw)
        m.equal('cc_energy_s1', b, real(s1, z), **kw)
        m.equal('cc_energy_s2', c, real(s2, z), **kw)
        if not any(type(x).__name__ == 'Failed' for x in (a, b, c, tot)):
            m.equal('pieces add up', a + b + 0.5*c, tot, **kw)
        u1 = gen.rnd(p.rng, t1.shape, 0.5, z)
        tt = t1[:, None, :, None]*u1[None, :, None, :]
        kw['mag'] = max(big, lib.mag(v)*np.sum(np.abs(tt)))
        m.equal('cc_energy_s2_a',
                m.call('cc_energy_s2_a', g('cc_energy_s2_a'), T1, u1.copy(),
                       V),
                real(dot(tt, oovv.transpose(2, 3, 0, 1)), z), **kw)
        p.refill()


def run_case(case, m):
    from cqcpy import cc_energy as en
    if case['mode'] == 'so':
        return run_so(case, m)
    p = cc.UR(case)
    for step in (0, 1):
        z = case['cplx']
        f, v, t1, t2 = p.so[:4]
        no = p.d.no
        d, s1, s2 = pieces(f, v, t1, t2, no)
        E = d + s1 + 0.5*s2
        big = lib.mag(f, v)*(np.sum(np.abs(t2)) + np.sum(np.abs(t1))**2
                             + np.sum(np.abs(t1)) + 1e-6)
        kw = dict(tol=1e-12, mag=big,
                  regime=workload.uregime(case) + (' reused' if step else ''),
                  cover=workload.cov(case))
        if p.r:
            got = m.call('rcc_energy', getattr(en, 'rcc_energy', None), p.T1,
                         p.T2, p.F.ov, p.I.oovv)
            m.equal('rcc_energy', got, real(E, z), **kw)
        else:
            a = (p.T1, p.T2, p.Fa.ov, p.Fb.ov, p.Ia.oovv, p.Ib.oovv,
                 p.Iab.oovv)
            got = m.call('ucc_energy', getattr(en, 'ucc_energy', None), *a)
            m.equal('ucc_energy', got, real(E, z), **kw)
            got = m.call('ump2_energy', getattr(en, 'ump2_energy', None), *a)
            m.equal('ump2_energy', got, real(d + s1, z), **kw)
        p.refill()
