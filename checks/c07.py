"""C07: spin-orbital density matrices."""
import inspect
import numpy as np
from mon import workload, cc, lib, ref, gen

ID = "C07"
RULE = ("random amplitudes over a grid of (occupied, virtual) dimensions x "
        "real/complex x profile x layout x reference weight (1, 0, -0.7, "
        "random); every density block, plain and optimised, against "
        "expectation values of normal-ordered operators; distinct = "
        "(function, dimensions, dtype, profile, layout, weight class)")
ASSUMPTIONS = ["amplitudes are antisymmetric"]
L1 = ['ba', 'ji', 'ai', 'ia']
L2 = ['cdab', 'ciab', 'bcai', 'bjai', 'abij', 'jkai', 'kaij', 'klij', 'ijab']
# blocks whose expectation value contains the reference weight
WEIGHT = {'ai', 'abij'}


def names():
    """Density functions the library offers (all public ones are listed in
    FUNCS; anything else with the same naming is checked as well)."""
    from cqcpy import cc_equations as ce
    out = []
    for k, labs in ((1, L1), (2, L2)):
        for lab in labs:
            for sfx in ('', '_opt'):
                n = 'ccsd_%drdm_%s%s' % (k, lab, sfx)
                if n in FUNCS or hasattr(ce, n):
                    out.append((n, lab))
    return out


FUNCS = ['ccsd_1rdm_ba', 'ccsd_1rdm_ji', 'ccsd_1rdm_ai', 'ccsd_2rdm_ciab',
         'ccsd_2rdm_jkai', 'ccsd_2rdm_cdab', 'ccsd_2rdm_bjai',
         'ccsd_2rdm_klij', 'ccsd_2rdm_bcai', 'ccsd_2rdm_kaij',
         'ccsd_2rdm_abij', 'ccsd_1rdm_ba_opt', 'ccsd_1rdm_ji_opt',
         'ccsd_1rdm_ai_opt', 'ccsd_2rdm_cdab_opt', 'ccsd_2rdm_bjai_opt',
         'ccsd_2rdm_klij_opt', 'ccsd_2rdm_bcai_opt', 'ccsd_2rdm_kaij_opt',
         'ccsd_2rdm_abij_opt']


def cases(tier, seed):
    if tier == 'quick':
        cs = workload.so_cases(tier, seed, ID, 10, 6, 2)
    else:
        cs = workload.so_cases(tier, seed, ID, 14, 9, 3)
    for k, c in enumerate(cs):
        c['w'] = [1.0, 0.37, 0.0, -0.7, 1.0, 2.5][k % 6]
    return cs


def required(tier):
    return ["%s:%s" % (f, c) for f in FUNCS for c in 'zd'] + \
        ['%s:w' % n for n in ('ccsd_1rdm_ai', 'ccsd_1rdm_ai_opt',
                              'ccsd_2rdm_abij', 'ccsd_2rdm_abij_opt')]


def evaluate(p, m, case, step):
    from cqcpy import cc_equations as ce
    f, v, t1, t2, l1, l2 = p.f, p.v, p.t1, p.t2, p.l1, p.l2
    no, nv = case['no'], case['nv']
    o_, u_ = slice(0, no), slice(no, None)
    reg = workload.regime(case) + (' reused' if step else '')
    # the oracles subtract unit overlaps
    amp = max(lib.mag(t1, t2, l1, l2), 1e-2)
    vals = {}
    for w in ([1.0] if case['w'] == 1.0 else [1.0, case['w']]):
        o = cc.so_oracle(f, v, t1, t2, l1, l2, tfac=w, mon=m)
        for name, lab in names():
            fn = getattr(ce, name, None)
            kw = {}
            if lab in WEIGHT:
                if w != 1.0:
                    kw = {'tfac': w}
            elif w != 1.0:
                continue
            g = o['g1'] if len(lab) == 2 else o['g2']
            want = g[tuple(u_ if c in 'abcd' else o_ for c in lab)]
            got = m.call(name, fn, p.T1, p.T2, p.L1, p.L2, **kw)
            m.equal(name, got, want, tol=1e-11, mag=amp,
                    regime=reg + (' w' if kw else ''),
                    cover=workload.cov(case) + (('w',) if kw else ()))
            if w == 1.0:
                vals[name] = (lab, got)
    # contraction with an unrelated Hamiltonian gives its Lagrangian
    if any(type(x[1]).__name__ == 'Failed' for x in vals.values()):
        return
    n = no + nv
    hf, hv = gen.full_f(p.rng, n, 1.0, case['cplx']), \
        gen.full_anti(p.rng, n, 1.0, case['cplx'])
    lag = ref.lagrangian(hf, hv, t1, t2, l1, l2)
    tot, size = 0.0, 1e-30
    mult = dict(ciab=2, bcai=2, jkai=2, kaij=2, bjai=4)
    for name, (lab, got) in vals.items():
        if name.endswith('_opt'):
            continue
        sl = tuple(u_ if c in 'abcd' else o_ for c in lab)
        if len(lab) == 2:
            x = np.sum(hf[sl[::-1]].T*got)
        else:
            x = 0.25*mult.get(lab, 1)*np.sum(
                hv[sl[2:] + sl[:2]].transpose(2, 3, 0, 1)*got)
        tot, size = tot + x, size + abs(x)
    tot = tot + np.sum(hf[o_, u_]*l1*0)
    # the ia and ijab blocks are the Lambda amplitudes themselves
    tot = tot + np.sum(hf[u_, o_].T*l1) \
        + 0.25*np.sum(hv[u_, u_, o_, o_].transpose(2, 3, 0, 1)*l2)
    m.equal('energy functional', tot, lag, tol=1e-11,
            mag=size, regime=reg, cover=workload.cov(case))


def run_case(case, m):
    p = cc.SO(case)
    evaluate(p, m, case, 0)
    p.refill()
    evaluate(p, m, case, 1)
