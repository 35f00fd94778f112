"""C31: working memory grows with the fourth power of the dimensions."""
import gc
import tracemalloc
import numpy as np
from mon import harness, lib, spin, gen

ID = "C31"
RULE = ("every amplitude, Lambda, density-matrix, energy, spin-conversion, "
        "partition and denominator function on problems of proportional "
        "dimensions (all numbers of orbitals doubled, tripled where cheap); "
        "monitored: traced peak memory during the call, arguments excluded; "
        "growth compared with that of a four-index tensor; distinct = "
        "(function, ratio of dimensions, dtype)")
ASSUMPTIONS = ["memory of arrays and Python objects is traced, scratch space "
               "inside compiled routines of other packages is not",
               "peaks of a few kilobytes are not judged"]
SLACK = 1.6
FLOOR = 20000       # bytes at the larger problem
SHAPES = [(8, 8), (4, 12), (12, 4), (6, 10), (10, 6), (5, 9)]
USHAPES = [(8, 8, 8, 8), (4, 4, 12, 12), (12, 12, 4, 4), (6, 3, 8, 11),
           (3, 7, 11, 7), (4, 3, 9, 10), (10, 9, 4, 5), (3, 5, 10, 8)]
VEC = ['ff', 'ffv', 'GP0', 'dGP0', 'uGP0']
SO = ['ccd_simple', 'ccd_stanton', 'lccd_simple', 'ccd_ladder_simple',
      'ccd_ring_simple', 'ccsd_simple', 'ccsd_stanton', 'lccsd_simple',
      'lambda_int', 'ccd_lambda_simple', 'ccsd_lambda_simple',
      'ccsd_lambda_opt', 'ccsd_lambda_stanton', 'ccsd_lambda_opt_int',
      'cc_energy', 'mp2_energy', 'T2_to_spatial', 'int_to_spatial']
U = ['uccsd_stanton', 'uccsd_lambda_opt', 'rccsd_stanton',
     'rccsd_lambda_opt', 'ucc_energy', 'rcc_energy', 'T2_to_spin',
     'D2_to_spin', 'int_to_spin', 'int_to_spin2', 'D2', 'D2u']
DEN = ['1rdm_ba', '1rdm_ji', '1rdm_ai', '2rdm_cdab', '2rdm_ciab',
       '2rdm_bcai', '2rdm_bjai', '2rdm_abij', '2rdm_jkai', '2rdm_kaij',
       '2rdm_klij']
OPT = ['1rdm_ai_opt', '2rdm_cdab_opt', '2rdm_bcai_opt', '2rdm_bjai_opt',
       '2rdm_abij_opt', '2rdm_kaij_opt', '2rdm_klij_opt']


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    out = []
    for rep in range(1 if tier == 'quick' else 5):
        for z in (False, True):
            for s in SHAPES:
                out.append(dict(kind='so', dims=list(s), cplx=z,
                                seed=int(rng.integers(2**31))))
            for s in USHAPES:
                out.append(dict(kind='u', dims=list(s), cplx=z,
                                seed=int(rng.integers(2**31))))
        out.append(dict(kind='vec', dims=[2500], cplx=False,
                        seed=int(rng.integers(2**31))))
    return out


def required(tier):
    return ['growth:' + n for n in SO + U + VEC] + \
        ['growth:ccsd_' + n for n in DEN + OPT] + \
        ['growth:uccsd_' + n for n in DEN] + \
        ['growth:rccsd_' + n for n in DEN]


def so(rng, no, nv, z):
    from cqcpy import cc_equations as ce, cc_energy as en, spin_utils as su
    f, v, t1, t2, l1, l2 = lib.so_data(rng, no, nv, z)
    F, I = lib.f_blocks(f, no), lib.v_blocks(v, no)
    out = []

    def add(mod, name, *args):
        out.append((name, getattr(mod, name, None), args))
    for n in ('ccd_simple', 'ccd_stanton', 'lccd_simple'):
        add(ce, n, F, I, t2)
    for n in ('ccd_ladder_simple', 'ccd_ring_simple'):
        add(ce, n, I, t2)
    for n in ('ccsd_simple', 'ccsd_stanton', 'lccsd_simple', 'lambda_int'):
        add(ce, n, F, I, t1, t2)
    add(ce, 'ccd_lambda_simple', F, I, l2, t2)
    for n in ('ccsd_lambda_simple', 'ccsd_lambda_opt', 'ccsd_lambda_stanton'):
        add(ce, n, F, I, l1, l2, t1, t2)
    if hasattr(ce, 'lambda_int'):
        add(ce, 'ccsd_lambda_opt_int', F, I, l1, l2, t1, t2,
            ce.lambda_int(F, I, t1, t2))
    for n in DEN + OPT:
        add(ce, 'ccsd_' + n, t1, t2, l1, l2)
    for n in ('cc_energy', 'mp2_energy'):
        add(en, n, t1, t2, F.ov, I.oovv)
    h = (no//2, nv//2, no - no//2, nv - nv//2)
    add(su, 'T2_to_spatial', t2, *h)
    add(su, 'int_to_spatial', I, h[0], h[2], h[1], h[3])
    return out


def un(rng, dims, z):
    from cqcpy import (cc_equations as ce, cc_energy as en, spin_utils as su,
                       utils as ut)
    noa, nob, nva, nvb = dims
    w = spin.random_u(rng, spin.Dims(*dims), z)
    Fa, Fb = lib.f_blocks(w['fa'], noa), lib.f_blocks(w['fb'], nob)
    Ia, Ib = lib.v_blocks(w['vaa'], noa), lib.v_blocks(w['vbb'], nob)
    Iab = lib.v_blocks(w['vab'], [noa, nob, noa, nob], lib.N16)
    T1, T2 = (w['t1a'], w['t1b']), (w['t2aa'], w['t2ab'], w['t2bb'])
    L1, L2 = (w['l1a'], w['l1b']), (w['l2aa'], w['l2ab'], w['l2bb'])
    out = []

    def add(mod, name, *args):
        out.append((name, getattr(mod, name, None), args))
    add(ce, 'uccsd_stanton', Fa, Fb, Ia, Ib, Iab, T1, T2)
    add(ce, 'uccsd_lambda_opt', Fa, Fb, Ia, Ib, Iab, L1, L2, T1, T2)
    for n in DEN:
        add(ce, 'uccsd_' + n, *(T1 + T2 + L1 + L2))
    add(en, 'ucc_energy', T1, T2, Fa.ov, Fb.ov, Ia.oovv, Ib.oovv, Iab.oovv)
    N = (noa, nva, nob, nvb)
    add(su, 'T2_to_spin', *T2, *N)
    add(su, 'D2_to_spin', *T2, *N)
    va, vb = lib.v_blocks(w['vaa'], noa, lib.N16), \
        lib.v_blocks(w['vbb'], nob, lib.N16)
    add(su, 'int_to_spin', va, vb, Iab, *N)
    add(su, 'int_to_spin2', Ia, Ib, Iab, *N)
    es = [gen.rnd(rng, (k,)) for k in (nva, nvb, noa, nob)]
    add(ut, 'D2', es[0], es[2])
    add(ut, 'D2u', *es)
    if noa == nob and nva == nvb:
        R = (Fa, Iab)
        add(ce, 'rccsd_stanton', *R, T1[0], T2[1])
        add(ce, 'rccsd_lambda_opt', *R, L1[0], L2[1], T1[0], T2[1])
        for n in DEN + ['2rdm_bjia']:
            add(ce, 'rccsd_' + n, T1[0], T2[1], L1[0], L2[1])
        add(en, 'rcc_energy', T1[0], T2[1], Fa.ov, Iab.oovv)
    return out


def vec(rng, n):
    from cqcpy import ft_utils as ft
    e = gen.rnd(rng, (n,), 3.0)
    out = [(k, getattr(ft, k, None), (1.3, e, 0.2)) for k in VEC[:4]]
    return out + [('uGP0', getattr(ft, 'uGP0', None), (1.3, e, e + 1, 0.2))]


def peak(fn, args):
    gc.collect(0)
    tracemalloc.start(1)
    try:
        r = fn(*args)
        p = tracemalloc.get_traced_memory()[1]
        del r
    finally:
        tracemalloc.stop()
    return p


def run_case(case, m):
    kind, dims, z = case['kind'], case['dims'], case['cplx']
    seen = {}
    for k in (1, 2):
        rng = harness.rng_of(case['seed'], kind, k)
        d = [x*k for x in dims]
        if kind == 'so':
            R = so(rng, *d, z)
        elif kind == 'u':
            R = un(rng, d, z)
        else:
            R = vec(rng, *d)
        for name, fn, args in R:
            if k == 1 and m.call(name, fn, *args) is harness.FAILED:
                continue
            try:
                seen.setdefault(name, []).append(peak(fn, args))
            except Exception:
                # judged by the other properties
                m.note('raised: ' + name)
        del R
    power = 1 if kind == 'vec' else 4
    reg = '.'.join(map(str, dims)) + (' z' if z else ' d')
    for name, p in seen.items():
        if len(p) < 2:
            continue
        m.calls[name] += 2
        r = p[1]/max(p[0], 1)
        ok = r <= 2**power*SLACK or p[1] < FLOOR
        if ok and p[1] >= FLOOR:
            m.maxerr = max(m.maxerr, r/(2**power*SLACK))
        m.check('growth', ok, "%s: peak memory %d and %d bytes for dimensions "
                "%s and twice these: factor %.1f instead of at most %d"
                % (name, p[0], p[1], dims, r, 2**power),
                regime=name + ' ' + reg, cover=(name,),
                nontrivial=p[1] >= 1000)
