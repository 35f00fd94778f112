"""C27: requests outside the supported range are refused."""
import numpy as np
from mon import harness, gen, ints, spin, lib

ID = "C27"
RULE = ("random invalid requests of each kind (string length, partition of "
        "a tensor in one or several indices, expansion order, unequal "
        "orbital numbers, k-point table, perturbative triples), each next "
        "to a valid request of the same kind; observed: the invalid one "
        "raises and the valid one, made before and after it, is answered "
        "with the same value; distinct = (kind, details of the request)")
ASSUMPTIONS = ["any exception counts as a refusal",
               "assertions are enabled (no -O)"]
KINDS = ['string length', 'boson string length', 'partition', 'order',
         'unequal orbitals', 'k-point reference', 'k-point orbitals',
         'triples']


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    q = tier == 'quick'
    n = dict([(k, 400 if q else 2000) for k in KINDS])
    n['order'], n['unequal orbitals'] = (200, 250) if q else (400, 600)
    n['k-point reference'] = n['k-point orbitals'] = 24 if q else 60
    n['partition'] = 2500 if q else 6000
    return [dict(kind=k, seed=int(rng.integers(2**31)))
            for k in KINDS for _ in range(n[k])]


def required(tier):
    return KINDS + [k + ' answered' for k in KINDS if k != 'triples']


def refused(m, kind, what, fn, args, kw={}, regime=''):
    m.calls[kind] += 1
    try:
        r = fn(*args, **kw)
    except Exception:
        m.check(kind, True, regime=regime)
        return
    m.check(kind, False, "%s was answered (%s)" % (what, type(r).__name__),
            regime=regime)


def answered(m, kind, fn, args, kw={}, regime=''):
    got = m.call(kind + ' answered', fn, *args, **kw)
    if got is harness.FAILED:
        return None
    m.check(kind + ' answered', True, regime=regime)
    return got


def run_case(case, m):
    from cqcpy import (ci_utils as cu, ov_blocks as ob, integrals as it,
                       cc_equations as ce)
    rng = harness.rng_of(case['seed'], case['kind'])
    kind = case['kind']

    def ri(a, b):
        return int(rng.integers(a, b))
    if kind in ('string length', 'boson string length'):
        cls = getattr(cu, 'Dstring' if kind[0] == 's' else 'Pstring', None)
        n = ri(0, 12)
        off = 0
        while off == 0 or n + off < 0:
            off = ri(-n, 6) if rng.random() < 0.6 else [-1, 1][ri(0, 2)]
        hi = 2 if kind[0] == 's' else 5
        occ = [int(x) for x in rng.integers(0, hi, n)]
        wrong = [int(x) for x in rng.integers(0, hi, n + off)]
        if rng.random() < 0.4:
            # the surplus holds nothing
            wrong = (occ + [0]*max(off, 0))[:n + off]
        t = [list, np.array, tuple][ri(0, 3)]
        reg = 'n=%d %+d %s' % (n, off, t.__name__)
        answered(m, kind, cls, (n, t(occ)), regime=reg)
        refused(m, kind, "string of %d for %d" % (n + off, n), cls,
                (n, t(wrong)), regime=reg)
        s = answered(m, kind, cls, (n, t(occ)), regime=reg)
        if s is not None:
            m.check(kind + ' answered', [int(x) for x in s.occ] == occ,
                    "%s became %s" % (occ, s.occ), regime=reg)
    elif kind == 'partition':
        full = rng.random() < 0.5
        fn = getattr(ob, 'make_two_e_blocks_full' if full else
                     'make_two_e_blocks', None)
        p = [(ri(0, 4), ri(0, 4)) for _ in range(4)]
        if rng.random() < 0.3:
            p = [p[0]]*4
        shp = [a + b for a, b in p]
        V = rng.normal(size=shp)
        bad = list(shp)
        how = ri(0, 4)
        if how == 0:        # one index off by one
            k = ri(0, 4)
            bad[k] = max(0, bad[k] + [-1, 1][ri(0, 2)])
        elif how == 1:      # two indices off, the total size may agree
            i, j = rng.permutation(4)[:2]
            bad[i], bad[j] = bad[j], bad[i]
        elif how == 2:      # compensating
            i, j = rng.permutation(4)[:2]
            bad[i], bad[j] = bad[i] + 1, max(0, bad[j] - 1)
        else:
            bad = [ri(0, 7) for _ in range(4)]
        if bad == shp:
            return
        args = [x for y in p for x in y]
        reg = '%s %s for %s' % ('full' if full else 'nine', bad, p)
        a = answered(m, kind, fn, (V, *args), regime=reg)
        refused(m, kind, "tensor %s for partition %s" % (bad, p), fn,
                (np.zeros(bad) + 1.0, *args), regime=reg)
        b = answered(m, kind, fn, (V, *args), regime=reg)
        if a is not None and b is not None:
            m.equal('same answer', [getattr(b, k) for k in lib.N9],
                    [getattr(a, k) for k in lib.N9], tol=1e-15, regime=reg)
    elif kind in ('order', 'unequal orbitals'):
        form = 'ug'[ri(0, 2)] if kind == 'order' else 'u'
        if form == 'u':
            noa, nva, nob = ri(0, 3), ri(0, 3), ri(0, 3)
            nvb = noa + nva - nob
            if nvb < 0:
                nob, nvb = noa, nva
            w = spin.random_u(rng, spin.Dims(noa, nob, nva, nvb))
            fn = getattr(cu, 'makeCfromT', None)
            args = (noa, nva, nob, nvb, w['t1a'], w['t1b'], w['t2aa'],
                    w['t2ab'], w['t2bb'])
        else:
            no, nv = [(2, 2), (1, 3), (3, 1), (1, 1), (2, 4)][ri(0, 5)]
            fn = getattr(cu, 'gmakeCfromT', None)
            args = (no, nv) + gen.t_amps(rng, no, nv)
        good = ri(1, 4)
        reg = '%s %s' % (form, args[:4] if form == 'u' else args[:2])
        a = answered(m, kind, fn, args, dict(order=good), reg)
        if kind == 'order':
            # orders between two supported ones are not supported either
            for o in ([0, 5, -1, 6, 7, -4, 10, 100, -100, 8][ri(0, 10)], 5,
                      [0.5, 1.5, 2.5, 3.5, 4.5, -2.5][ri(0, 6)]):
                refused(m, kind, "order %s" % o, fn, args, dict(order=o),
                        regime='%s order %s' % (form, o))
        else:
            off = 0
            while off == 0:
                off = ri(-2, 3)
            d = [noa, nob, nva, nvb]
            k = ri(0, 4)
            d[k] = max(0, d[k] + off)
            if d[0] + d[2] != d[1] + d[3]:
                w = spin.random_u(rng, spin.Dims(*d))
                refused(m, kind, "spaces %s" % d, fn,
                        (d[0], d[2], d[1], d[3], w['t1a'], w['t1b'],
                         w['t2aa'], w['t2ab'], w['t2bb']),
                        dict(order=good), regime='%s order %d' % (d, good))
        b = answered(m, kind, fn, args, dict(order=good), reg)
        if a is not None and b is not None:
            m.equal('same answer', b, a, tol=1e-14, regime=reg)
    elif kind.startswith('k-point'):
        from pyscf.pbc import scf
        cell = ints.cell(['He', 'H2'][ri(0, 2)])
        mesh = [[1, 1, 2], [2, 1, 1], [1, 1, 1]][ri(0, 3)] \
            if kind == 'k-point reference' else [[1, 1, 2], [1, 1, 3]][
                ri(0, 2)]
        kpts = cell.make_kpts(mesh)
        nk, n = len(kpts), cell.nao_nr()
        fn = getattr(it, 'get_solk_integrals', None)
        o = ['chem', 'phys'][ri(0, 2)]
        C = [gen.rnd(rng, (n, 2), 1.0, True) for _ in kpts]
        mf = scf.KRHF(cell, kpts)
        mf.verbose = 0
        mf.mo_coeff, mf.mo_occ = C, [np.array([2., 0.])]*nk
        reg = '%s %s' % (mesh, o)
        a = answered(m, kind, fn, (mf, o), regime=reg)
        if kind == 'k-point reference':
            bad = scf.KUHF(cell, kpts)
            bad.mo_coeff = np.array([C, C])
            bad.mo_occ = [mf.mo_occ, mf.mo_occ]
        else:
            bad = scf.KRHF(cell, kpts)
            D = [c.copy() for c in C]
            for k in ([ri(0, nk)] if rng.random() < 0.7 else
                      range(1, nk)):
                D[k] = D[k][:, :1]
            bad.mo_coeff = D
            bad.mo_occ = [np.array([2., 0.])[:d.shape[1]] for d in D]
            if rng.random() < 0.5:
                bad.mo_occ = mf.mo_occ
        bad.verbose = 0
        refused(m, kind, kind, fn, (bad, o), regime=reg)
        b = answered(m, kind, fn, (mf, o), regime=reg)
        if a is not None and b is not None:
            m.equal('same answer', b, a, tol=1e-12, regime=reg)
    else:
        no, nv = ri(0, 4), ri(0, 4)
        f, v, t1, t2, _, _ = lib.so_data(rng, no, nv, rng.random() < 0.5)
        F, I = lib.f_blocks(f, no), lib.v_blocks(v, no)
        e = np.diag(f).real
        refused(m, kind, "(T) correction", getattr(
            ce, 'ccsd_pt_simple', None), (F, I, e[:no], e[no:], t1, t2),
            regime='%dx%d' % (no, nv))
