"""C28: periodic systems end to end."""
import numpy as np
from mon import harness, ints, spin, lib
from .c08 import U, R
from .c23 import solve, so_energy, restricted

ID = "C28"
RULE = ("skewed cells x k-meshes (as in C19) x orbital sets "
        "(canonical with random phases, complex rotations within the "
        "occupied and virtual space of each k-point) x form (spin-orbital, "
        "unrestricted, restricted) x source of the integrals (table in "
        "either order, single quadruples); the k-point integrals are "
        "assembled into one complex problem and solved with the library.  "
        "Observed: mean-field energy and Fock matrix from the table, MP2 and "
        "CCSD energy per cell against PySCF's k-point codes, RDM energy, "
        "crystal-momentum conservation of the converged amplitudes; "
        "distinct = (quantity, cell, mesh, k-points, form, source, orbitals)")
ASSUMPTIONS = ["PySCF's k-point mean field, MP2 and CCSD are correct",
               "no exchange-divergence correction (exxdiv=None)"]
SOURCES = ['chem', 'phys', 'solk']


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    q = tier == 'quick'
    out = []

    def add(**k):
        out.append(dict(seed=int(rng.integers(2**31)), **k))
    j = 0
    for rep in range(2 if q else 8):
        for cell in ('H2', 'He', 'BH'):
            for mesh in ([1, 1, 1], [1, 1, 2], [2, 1, 1], [1, 1, 3],
                         [1, 2, 2]):
                # the other meshes have almost no band gap
                if cell == 'BH' and mesh[:2] != [1, 1]:
                    continue
                for form in ('so', 'u', 'r'):
                    j += 1
                    nk = int(np.prod(mesh))
                    if form == 'so' and cell == 'BH' and nk > 2:
                        form = 'u'
                    add(cell=cell, mesh=mesh,
                        kset=ints.KSETS[(j + rep) % len(ints.KSETS)],
                        rot=bool(rng.random() < 0.5) and cell != 'BH',
                        form=form,
                        source=SOURCES[(j + rep) % 3])
    for rep in range(1 if q else 4):
        for k in ([0.02, -0.05, 0.03], [0.1, 0.2, 0.05]):
            for ref in ('UHF', 'ROHF'):
                for form in ('so', 'u'):
                    add(cell='HeHdz', k=k, ref=ref, form=form,
                        rot=bool(rng.random() < 0.5))
    out.sort(key=lambda c: (c['cell'] != 'BH', -int(np.prod(c.get(
        'mesh', [1])))))
    return out


def required(tier):
    return ['CC energy:so', 'CC energy:u', 'CC energy:r', 'RDM energy:so',
            'RDM energy:u', 'RDM energy:r', 'HF energy:chem',
            'HF energy:phys', 'HF energy:solk', 'MP2 energy', 'Fock matrix',
            'momentum', 'CC energy:rotated', 'CC energy:UHF',
            'CC energy:ROHF']


def rotated(rng, C, no, full):
    C = np.array(C, dtype=complex)
    for s in (slice(0, no), slice(no, None)):
        k = C[:, s].shape[1]
        if full:
            from scipy.linalg import expm
            x = rng.normal(size=(k, k)) + 1j*rng.normal(size=(k, k))
            C[:, s] = C[:, s].dot(expm(0.15*(x - x.conj().T)))
        else:
            C[:, s] = C[:, s]*np.exp(2j*np.pi*rng.random(k))
    return C


_kmf = {}


def meanfield(name, mesh, kset):
    key = (name, tuple(mesh), kset)
    if key not in _kmf:
        from pyscf.pbc import scf, mp, cc
        cell = ints.cell(name)
        kpts = ints.kpoints(cell, mesh, kset)
        mf = scf.KRHF(cell, kpts, exxdiv=None)
        mf.verbose, mf.conv_tol, mf.max_cycle = 0, 1e-12, 150
        mf.conv_tol_grad = 1e-8
        mf.kernel()
        p = mp.KMP2(mf)
        p.verbose = 0
        p.kernel()
        c = cc.KRCCSD(mf)
        c.verbose, c.conv_tol, c.conv_tol_normt = 0, 1e-11, 1e-8
        c.max_cycle = 150
        e = c.kernel()[0]
        ok = bool(mf.converged and c.converged)
        _kmf[key] = (mf, complex(p.e_corr).real, complex(e).real, ok)
    return _kmf[key]


def run_case(case, m):
    if 'mesh' not in case:
        return run_single(case, m)
    from cqcpy import integrals as it
    import copy
    rng = harness.rng_of(case['seed'], 'c28')
    mf0, emp2, ecc, ok = meanfield(case['cell'], case['mesh'], case['kset'])
    if not ok:
        m.note('reference not converged')
        return
    kpts = mf0.kpts
    nk = len(kpts)
    nocc = [int(np.sum(x > 0)) for x in mf0.mo_occ]
    no, n = nocc[0], mf0.mo_coeff[0].shape[1]
    if len(set(nocc)) > 1:
        m.note('occupation differs between k-points')
        return
    mf = copy.copy(mf0)
    mf.mo_coeff = [rotated(rng, C, no, case['rot']) for C in mf0.mo_coeff]
    C = mf.mo_coeff
    reg = '%s %s %s %s %s%s' % (case['cell'], case['mesh'], case['kset'],
                                case['form'], case['source'],
                               ' rotated' if case['rot'] else '')
    cov = (case['form'], case['source']) + (
        ('rotated',) if case['rot'] else ())
    # the momentum-conserving fourth k-point from the definition:
    # k_r + k_s - k_p - k_q is a reciprocal lattice vector
    frac = mf.cell.get_scaled_kpts(kpts)

    def fourth(p, q, r):
        for s in range(nk):
            d = frac[p] + frac[q] - frac[r] - frac[s]
            if np.max(np.abs(d - np.round(d))) < 1e-6:
                return s
        raise ValueError
    # <pq|rs> over combined indices (k, orbital), chemists' source or not
    src = case['source']
    V = np.zeros((nk, n)*4, dtype=complex)
    if src != 'solk':
        got = m.call('get_solk_integrals', getattr(
            it, 'get_solk_integrals', None), mf, src)
        if got is harness.FAILED:
            return
        h1, h2 = got
    else:
        h1 = [c.conj().T.dot(h).dot(c) for c, h in zip(C, mf.get_hcore())]
    for p in range(nk):
        for q in range(nk):
            for r in range(nk):
                s = fourth(p, q, r)
                if src == 'chem':
                    x = np.asarray(h2[p, r, q]).transpose(0, 2, 1, 3)
                elif src == 'phys':
                    x = h2[p, q, r]
                else:
                    x = m.call('get_phys_solk', getattr(
                        it, 'get_phys_solk', None), mf, (p, q, r, s),
                        C[p], C[q], C[r], C[s])
                    if x is harness.FAILED:
                        return
                V[p, :, q, :, r, :, s, :] = np.asarray(x)/nk
    o = slice(0, no)
    # mean-field energy and Fock matrix from the integrals
    e = complex(mf.energy_nuc()) + 2*sum(
        np.trace(h[o, o]) for h in h1)/nk
    e += 2*np.einsum('piqjpiqj->', V[:, o, :, o, :, o, :, o])/nk
    e -= np.einsum('piqjqjpi->', V[:, o, :, o, :, o, :, o])/nk
    real(m, 'HF energy', e, mf0.e_tot, 1e-8, reg, cov)
    F = np.zeros((nk, n, nk, n), dtype=complex)
    for k in range(nk):
        F[k, :, k, :] = h1[k]
        for q in range(nk):
            F[k, :, k, :] += 2*np.einsum('pjrj->pr', V[k][:, q, o, k][
                :, :, :, q, o])
            F[k, :, k, :] -= np.einsum('pjjr->pr', V[k][:, q, o, q, o, k])
    fock = mf0.get_fock()
    f = np.zeros_like(F)
    for k in range(nk):
        f[k, :, k, :] = C[k].conj().T.dot(fock[k]).dot(C[k])
    m.equal('Fock matrix', F, f, tol=1e-7, absolute=True, regime=reg,
            cover=cov)
    # reorder: occupied orbitals of all k-points first
    perm = [k*n + i for k in range(nk) for i in range(no)] + \
        [k*n + a for k in range(nk) for a in range(no, n)]
    mom = np.array([k for k in range(nk) for i in range(no)] +
                   [k for k in range(nk) for a in range(no, n)])
    N = nk*n
    V = V.reshape((N,)*4)[np.ix_(perm, perm, perm, perm)]
    f = F.reshape(N, N)[np.ix_(perm, perm)]
    NO = nk*no
    if not case['rot']:
        e0 = np.diag(f).real
        D = e0[NO:, None, None, None] + e0[None, NO:, None, None] \
            - e0[None, None, :NO, None] - e0[None, None, None, :NO]
        x = V[:NO, :NO, NO:, NO:]
        t = -V[NO:, NO:, :NO, :NO]/D
        e = (2*np.einsum('ijab,abij->', x, t)
             - np.einsum('ijba,abij->', x, t))/nk
        real(m, 'MP2 energy', e, emp2, 1e-7, reg, cov)
    d = spin.Dims(NO, NO, N - NO, N - NO)
    anti = V - V.transpose(0, 1, 3, 2)
    T = correlate(m, case['form'], d, f, f, anti, anti, V, ecc*nk, nk, reg,
                  cov)
    if T is None:
        return
    t1, t2 = T
    g = frac[mom]
    bad1 = [np.max(np.abs(x - np.round(x))) > 1e-6 for x in (
        g[NO:, None] - g[None, :NO]).reshape(-1, 3)]
    x = np.abs(t1.ravel())[np.array(bad1)]
    q = (g[NO:, None, None, None] + g[None, NO:, None, None]
         - g[None, None, :NO, None] - g[None, None, None, :NO])
    bad2 = np.max(np.abs(q - np.round(q)), axis=-1) > 1e-6
    y = np.abs(t2)[bad2]
    if x.size + y.size:
        w = max(lib.mag(x), lib.mag(y))
        m.check('momentum', w < 1e-9, "forbidden amplitude of size %g" % w,
                regime=reg)


def real(m, what, got, want, tol, reg, cov):
    """Energies; the imaginary part is limited by the integration grid."""
    m.equal(what, np.array([np.real(got)]), np.array([np.real(want)]),
            tol=tol, absolute=True, regime=reg, cover=cov)
    m.equal(what + ' is real', np.array([np.imag(got)]), np.zeros(1),
            tol=1e-4, absolute=True, regime=reg)


def correlate(m, form, d, fa, fb, va, vb, vab, ecc, nk, reg, cov):
    """CCSD and Lambda with the library; returns spatial singles and
    alpha-beta doubles."""
    from cqcpy import (cc_equations as ce, cc_energy as en, ov_blocks as ob,
                       spin_utils as su, utils as ut)
    noa, nob, nva, nvb = d.noa, d.nob, d.nva, d.nvb
    F_ = harness.FAILED

    def call(name, *a, **k):
        for mod in (ce, en, ob, su, ut):
            if hasattr(mod, name):
                return m.call(name, getattr(mod, name), *a, **k)
        return m.call(name, None)
    Fa, Fb = lib.f_blocks(fa, noa), lib.f_blocks(fb, nob)
    ea, eb = np.diag(fa).real, np.diag(fb).real
    tr = lambda x: x.transpose(2, 3, 0, 1)
    z = lambda *s: np.zeros(s, dtype=complex)
    D1a, D1b = ut.D1(ea[noa:], ea[:noa]), ut.D1(eb[nob:], eb[:nob])
    D2a, D2b = ut.D2(ea[noa:], ea[:noa]), ut.D2(eb[nob:], eb[:nob])
    D2ab = ut.D2u(ea[noa:], eb[nob:], ea[:noa], eb[:nob])
    A, B = (noa, nva), (nob, nvb)
    fs, v = spin.embed1(d, fa, fb), spin.embed2(d, va, vb, vab)
    if form == 'r':
        RI = call('make_two_e_blocks_full', vab, *(A*4))
        if RI is F_:
            return None
        x = solve(m, 'rccsd_stanton', lambda t: call(
            'rccsd_stanton', Fa, RI, *t), [z(nva, noa), z(nva, nva, noa, noa)],
            [D1a, D2ab])
        if x is None:
            return None
        e = call('rcc_energy', x[0], x[1], Fa.ov, RI.oovv)
        y = solve(m, 'rccsd_lambda_opt', lambda l: call(
            'rccsd_lambda_opt', Fa, RI, *l, *x),
            [z(noa, nva), z(noa, noa, nva, nva)], [D1a.T, tr(D2ab)])
        if y is None:
            return None
        g = {}
        for nm, lab in R.items():
            g[lab] = call('rccsd_' + nm, *x, *y)
            if g[lab] is F_:
                return None
        g['ia'], g['iJaB'] = y
        tot = so_energy(d, fs, v, restricted(g))
        out = x
    elif form == 'u':
        Ia = call('make_two_e_blocks', va, *(A*4))
        Ib = call('make_two_e_blocks', vb, *(B*4))
        Iab = call('make_two_e_blocks_full', vab, *(A + B + A + B))
        if any(k is F_ for k in (Ia, Ib, Iab)):
            return None
        x0 = [z(nva, noa), z(nvb, nob), z(nva, nva, noa, noa),
              z(nva, nvb, noa, nob), z(nvb, nvb, nob, nob)]

        def join(r):
            return r if r is F_ else list(r[0]) + list(r[1])
        x = solve(m, 'uccsd_stanton', lambda t: join(call(
            'uccsd_stanton', Fa, Fb, Ia, Ib, Iab, tuple(t[:2]),
            tuple(t[2:]))), x0, [D1a, D1b, D2a, D2ab, D2b])
        if x is None:
            return None
        T1, T2 = tuple(x[:2]), tuple(x[2:])
        e = call('ucc_energy', T1, T2, Fa.ov, Fb.ov, Ia.oovv, Ib.oovv,
                 Iab.oovv)
        y = solve(m, 'uccsd_lambda_opt', lambda l: join(call(
            'uccsd_lambda_opt', Fa, Fb, Ia, Ib, Iab, tuple(l[:2]),
            tuple(l[2:]), T1, T2)),
            [k.T.copy() for k in x0[:2]] + [tr(k).copy() for k in x0[2:]],
            [D1a.T, D1b.T, tr(D2a), tr(D2ab), tr(D2b)])
        if y is None:
            return None
        L1, L2 = tuple(y[:2]), tuple(y[2:])
        blocks = {}
        for nm, labs in U.items():
            g = call('uccsd_' + nm, *(T1 + T2 + L1 + L2))
            if g is F_:
                return None
            blocks.update(zip(labs.split(), g))
        blocks['ia'], blocks['IA'] = L1
        blocks['ijab'], blocks['iJaB'], blocks['IJAB'] = L2
        tot = so_energy(d, fs, v, blocks)
        out = (T1[0], T2[1])
    else:
        N = (noa, nva, nob, nvb)
        F = call('F_to_spin', Fa, Fb, *N)
        I3 = (call('make_two_e_blocks', va, *(A*4)),
              call('make_two_e_blocks', vb, *(B*4)),
              call('make_two_e_blocks_full', vab, *(A + B + A + B)))
        if F is F_ or any(k is F_ for k in I3):
            return None
        I = call('int_to_spin2', *I3, *N)
        if I is F_:
            return None
        eo = np.concatenate([ea[:noa], eb[:nob]])
        ev = np.concatenate([ea[noa:], eb[nob:]])
        D1, D2 = ut.D1(ev, eo), ut.D2(ev, eo)
        no, nv = d.no, d.nv
        x = solve(m, 'ccsd_stanton', lambda t: call('ccsd_stanton', F, I, *t),
                  [z(nv, no), z(nv, nv, no, no)], [D1, D2])
        if x is None:
            return None
        e = call('cc_energy', x[0], x[1], F.ov, I.oovv)
        y = solve(m, 'ccsd_lambda_opt', lambda l: call(
            'ccsd_lambda_opt', F, I, *l, *x),
            [z(no, nv), z(no, no, nv, nv)], [D1.T, tr(D2)])
        if y is None:
            return None
        big = {}
        for lab in ('ba', 'ji', 'ai', 'ciab', 'jkai', 'cdab', 'bjai', 'klij',
                    'bcai', 'kaij', 'abij'):
            big[lab] = call('ccsd_%drdm_%s' % (len(lab)//2, lab), *x, *y)
            if big[lab] is F_:
                return None
        big['ia'], big['ijab'] = y
        tot = so_energy(spin.Dims(no, 0, nv, 0), fs, v, big)
        t1 = call('T1_to_spatial', x[0], *N)
        t2 = call('T2_to_spatial', x[1], *N)
        if t1 is F_ or t2 is F_:
            return None
        out = (t1[0], t2[1])
    if e is F_:
        return None
    real(m, 'CC energy', e/nk, ecc/nk, 2e-8, reg, cov)
    real(m, 'RDM energy', tot/nk, e/nk, 1e-8, reg, cov)
    return out


_umf = {}


def reference_u(k, ref):
    key = (tuple(k), ref)
    if key not in _umf:
        from pyscf.pbc import scf, cc
        cell = ints.cell('HeHdz')
        kmf = (scf.KUHF if ref == 'UHF' else scf.KROHF)(
            cell, np.array([k]), exxdiv=None)
        kmf.verbose, kmf.conv_tol, kmf.max_cycle = 0, 1e-12, 150
        kmf.conv_tol_grad = 1e-8
        kmf.kernel()
        u = kmf if ref == 'UHF' else scf.addons.convert_to_uhf(kmf)
        c = cc.KUCCSD(u)
        c.verbose, c.conv_tol, c.conv_tol_normt = 0, 1e-11, 1e-8
        c.max_cycle = 150
        e = c.kernel()[0]
        _umf[key] = (u, complex(e).real, bool(kmf.converged and c.converged))
    return _umf[key]


def run_single(case, m):
    """One k-point, open shell, integrals from the block container."""
    from cqcpy import integrals as it
    from pyscf.pbc import scf
    rng = harness.rng_of(case['seed'], 'c28 single')
    u, ecc, ok = reference_u(case['k'], case['ref'])
    if not ok:
        m.note('reference not converged')
        return
    ca, cb = np.asarray(u.mo_coeff[0][0]), np.asarray(u.mo_coeff[1][0])
    oa, ob_ = np.asarray(u.mo_occ[0][0]), np.asarray(u.mo_occ[1][0])
    noa, nob = int(np.sum(oa > 0)), int(np.sum(ob_ > 0))
    n = ca.shape[1]
    ca, cb = rotated(rng, ca, noa, case['rot']), \
        rotated(rng, cb, nob, case['rot'])
    mf = scf.UHF(ints.cell('HeHdz'), kpt=np.array(case['k']), exxdiv=None)
    mf.verbose = 0
    mf.mo_coeff = np.array([ca, cb])
    mf.mo_occ = np.array([oa, ob_])
    dm = u.make_rdm1()
    fock = u.get_hcore() + u.get_veff(dm_kpts=dm)
    fa = ca.conj().T.dot(fock[0][0]).dot(ca)
    fb = cb.conj().T.dot(fock[1][0]).dot(cb)
    reg = 'HeHdz %s %s %s%s' % (case['k'], case['ref'], case['form'],
                              ' rotated' if case['rot'] else '')
    cov = (case['form'], case['ref']) + (('rotated',) if case['rot'] else ())
    P = getattr(it, 'get_phys_gen', None)
    va = m.call('get_phys_gen', P, mf, ca, ca, ca, ca, anti=True)
    vb = m.call('get_phys_gen', P, mf, cb, cb, cb, cb, anti=True)
    vab = m.call('get_phys_gen', P, mf, ca, cb, ca, cb)
    if any(x is harness.FAILED for x in (va, vb, vab)):
        return
    d = spin.Dims(noa, nob, n - noa, n - nob)
    # the container and the separate routines describe the same problem
    I = m.call('eri_blocks', getattr(it, 'eri_blocks', None), mf)
    if I is not harness.FAILED:
        full = spin.embed2(d, va, vb, vab)
        for k in lib.N9:
            m.equal('container', getattr(I, k), lib.cut(full, [d.no]*4, k),
                    tol=1e-10, mag=1.0, regime=reg + ' ' + k)
    correlate(m, case['form'], d, fa, fb, np.asarray(va, dtype=complex),
              np.asarray(vb, dtype=complex), np.asarray(vab, dtype=complex),
              ecc, 1, reg, cov)
