"""C23: real molecules end to end."""
import numpy as np
from mon import harness, ints, spin, lib
from .c08 import U, R

ID = "C23"
RULE = ("molecules (closed/open shell, RHF/UHF/ROHF references, Gamma-point "
        "cell, one-spin and two-electron systems) x orbital sets (canonical, "
        "rotated within occupied/virtual space) x form (spin-orbital, "
        "unrestricted, restricted) x amplitude/Lambda routine; the residuals "
        "are iterated with DIIS to convergence with the library's own "
        "integrals, blocks, conversions and denominators; energy and AO "
        "1-RDM compared with PySCF, RDM energy with CC energy; CI matrices "
        "diagonalised and compared with PySCF CISD/FCI; distinct = "
        "(quantity, molecule, reference, form, routine, orbitals)")
ASSUMPTIONS = ["PySCF's CCSD, CISD and FCI are correct",
               "DIIS with orbital-energy denominators converges for these "
               "molecules (it does on the unchanged library)"]
TABLE = {
    'HF': dict(atom='H 0 0 0; F 0.1 0.2 1.0', basis='sto-3g'),
    'HF631': dict(atom='H 0 0 0; F 0 0.1 0.95', basis='6-31g'),
    'LiH': dict(atom='Li 0 0 0; H 0.3 0 1.6', basis='6-31g'),
    'H2O': dict(atom='O 0 0 0; H 0.75 0.6 0; H -0.7 0.6 0.1',
                basis='sto-3g'),
    'BeH2': dict(atom='Be 0 0 0; H 0 0.2 1.3; H 0 -0.1 -1.35',
                 basis='sto-3g'),
    'H4': dict(atom='H 0 0 0; H 0 0 0.9; H 1.4 0 0.1; H 1.4 0.2 1.0',
               basis='6-31g'),
    'H2': dict(atom='H 0 0 0; H 0 0.1 0.8', basis='6-31g**'),
    'NH2': dict(atom='N 0 0 0; H 0.8 0.6 0; H -0.8 0.55 0.1',
                basis='sto-3g', spin=1),
    'BeH': dict(atom='Be 0 0 0; H 0 0.2 1.35', basis='sto-3g', spin=1),
    'CH2': dict(atom='C 0 0 0; H 0 0.9 0.5; H 0 -0.9 0.55', basis='sto-3g',
                spin=2),
    'H3': dict(atom='H 0 0 0; H 0 0.3 1.0; H 0.8 0 0.3', basis='6-31g',
               spin=1),
    'H2t': dict(atom='H 0 0 0; H 0 0.1 0.9', basis='6-31g', spin=2),
    'Li': dict(atom='Li 0 0 0', basis='6-31g', spin=1),
    'NH': dict(atom='N 0 0 0; H 0 0.2 1.05', basis='6-31g', spin=2),
    'Heion': dict(atom='He 0 0 0; H 0 0 0.8', basis='6-31g', charge=1),
}
CLOSED = ['HF', 'LiH', 'H2O', 'BeH2', 'H4', 'H2', 'Heion']
OPEN = ['NH2', 'BeH', 'CH2', 'H3', 'H2t', 'Li']
SOLVERS = dict(so=['ccsd_simple', 'ccsd_stanton'], u=['uccsd_stanton'],
               r=['rccsd_stanton'])
LAMBDA = dict(so=['ccsd_lambda_simple', 'ccsd_lambda_stanton',
                  'ccsd_lambda_opt', 'ccsd_lambda_opt_int'],
              u=['uccsd_lambda_opt'], r=['rccsd_lambda_opt'])
CI = [('H2', 'ucisd'), ('H3', 'ucisdt'), ('H4min', 'ucisdtq'),
      ('HF', 'ucisd'), ('LiHmin', 'ucisd'), ('NH2', 'ucisd'),
      ('H3min', 'ucisdt'), ('BeHmin', 'ucisd'), ('H2t', 'ucisd'),
      ('H2', 'gcisd'), ('H3min', 'gcisdt'), ('H4min', 'gcisdtq'), ('H4min', 'gcisd'),
      ('LiHmin', 'gcisd'), ('HF', 'ucis'), ('H3', 'ucis'), ('LiHmin', 'gcis')]
TABLE.update({
    'H4min': dict(atom='H 0 0 0; H 0 0 0.9; H 1.4 0 0.1; H 1.4 0.2 1.0',
                  basis='sto-3g'),
    'H3min': dict(atom='H 0 0 0; H 0 0.3 1.0; H 0.8 0 0.3', basis='sto-3g',
                  spin=1),
    'LiHmin': dict(atom='Li 0 0 0; H 0.3 0 1.6', basis='sto-3g'),
    'BeHmin': dict(atom='Be 0 0 0; H 0.3 0 1.3', basis='sto-3g', spin=1),
})


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    q = tier == 'quick'
    out = []

    def add(name, ref, form, rot=0.0, **kw):
        out.append(dict(name=name, ref=ref, form=form, rot=rot,
                        seed=int(rng.integers(2**31)), **kw))

    def pick(x):
        return x[int(rng.integers(len(x)))]
    closed, opened = CLOSED + ['HF631'], OPEN + ['NH']
    for rep in range(2 if q else 10):
        rot = 0.15 if rep else 0.0
        for name in closed:
            add(name, 'RHF', 'r', rot)
            add(name, 'RHF', 'u', rot)
        for name in opened:
            add(name, 'UHF', 'u', rot)
            if name != 'H2t':
                add(name, 'ROHF', 'u', rot)
    for k, name in enumerate([x for x in closed + opened
                              if '631' not in x]*(1 if q else 4)):
        ref = 'RHF' if name in closed else pick(['UHF', 'ROHF'])
        if name == 'H2t':
            ref = 'UHF'
        for j, lam in enumerate(LAMBDA['so']):
            add(name, ref, 'so', 0.15 if (k + j//2) % 2 else 0.0,
                solver=SOLVERS['so'][(k//2 + j) % 2], lam=lam)
    for form in ('so', 'u', 'r'):
        add('cell', 'RHF', form)
    for name, b in CI:
        out.append(dict(name=name, form='ci', basis=b, ref='UHF', rot=0.0,
                        seed=int(rng.integers(2**31))))
    cost = dict(HF631=9, NH=8, H2O=4, CH2=4, HF=3)
    out.sort(key=lambda c: (-cost.get(c['name'], 1), c['form'] != 'so'))
    return out


def required(tier):
    return ['CC energy:so', 'CC energy:u', 'CC energy:r', '1-RDM:so',
            '1-RDM:u', '1-RDM:r', 'RDM energy:so', 'RDM energy:u',
            'RDM energy:r', 'CI energy:u', 'CI energy:g', 'CI energy:s1',
            'CI energy:s2', 'CI energy:s3', 'CI energy:s4', 'CC energy:ROHF',
            'CC energy:rotated', '1-RDM:ROHF', 'CC energy:cell']


_mf = {}


def meanfield(name, ref):
    if (name, ref) not in _mf:
        from pyscf import gto, scf
        if name == 'cell':
            from pyscf.pbc import scf as pscf
            mf = pscf.RHF(ints.cell('H2'))
            mf.exxdiv = None
        else:
            mol = gto.M(verbose=0, **TABLE[name])
            mf = getattr(scf, ref)(mol)
        mf.verbose = 0
        mf.conv_tol = 1e-12
        mf.kernel()
        _mf[name, ref] = mf
    return _mf[name, ref]


def reference(name, ref):
    """(correlation energy, AO density of alpha, of beta) from PySCF."""
    from pyscf import cc, scf, fci
    mf = meanfield(name, ref)
    if name == 'cell':
        from pyscf.pbc import cc as pcc
        c = pcc.RCCSD(mf)
    else:
        u = mf if ref == 'UHF' else scf.addons.convert_to_uhf(mf)
        na, nb = mf.mol.nelec
        if na + nb == 2:      # CCSD is exact; avoids empty-spin corner cases
            h = mf.get_hcore()
            ca, cb = u.mo_coeff
            eri = mf.mol.intor('int2e')
            hs = [c.T.dot(h).dot(c) for c in (ca, cb)]
            es = [ints.chem(eri, x, x, y, y) for x, y in
                  ((ca, ca), (ca, cb), (cb, cb))]
            s = fci.direct_uhf.FCISolver()
            s.conv_tol = 1e-13
            e, v = s.kernel(hs, es, ca.shape[1], (na, nb))
            d = s.make_rdm1s(v, ca.shape[1], (na, nb))
            return (e + mf.mol.energy_nuc() - mf.e_tot,
                    ca.dot(d[0]).dot(ca.T), cb.dot(d[1]).dot(cb.T))
        c = cc.UCCSD(u)
    c.verbose = 0
    c.conv_tol, c.conv_tol_normt, c.max_cycle = 1e-12, 1e-10, 200
    c.kernel()
    c.solve_lambda()
    d = c.make_rdm1()
    if name == 'cell':
        C = mf.mo_coeff
        g = C.dot(d/2).dot(C.T)
        return c.e_corr, g, g
    ca, cb = u.mo_coeff
    return c.e_corr, ca.dot(d[0]).dot(ca.T), cb.dot(d[1]).dot(cb.T)


_ref = {}


def cached(name, ref):
    if (name, ref) not in _ref:
        _ref[name, ref] = reference(name, ref)
    return _ref[name, ref]


def rotate(rng, C, no, size):
    """Orbitals mixed within the occupied and the virtual space."""
    from scipy.linalg import expm
    C = C.copy()
    for s in (slice(0, no), slice(no, None)):
        k = C[:, s].shape[1]
        x = rng.normal(size=(k, k))*size/np.sqrt(max(k, 1))
        C[:, s] = C[:, s].dot(expm(x - x.T))
    return C


def orbitals(mf, ref, rng, rot):
    if ref == 'UHF':
        ca, cb = mf.mo_coeff
        oa, ob = mf.mo_occ
    else:
        ca = cb = np.asarray(mf.mo_coeff)
        oa, ob = mf.mo_occ > 0, mf.mo_occ > 1
    noa, nob = int(np.sum(oa > 0)), int(np.sum(ob > 0))
    if rot:
        ca2 = rotate(rng, ca, noa, rot)
        cb = ca2 if ref == 'RHF' else rotate(rng, cb, nob, rot)
        ca = ca2
    return ca, cb, noa, nob


def focks(mf, ref, ca, cb):
    from pyscf import scf
    if ref == 'UHF':
        f = mf.get_fock()
    elif ref == 'ROHF':
        u = scf.addons.convert_to_uhf(mf)
        f = u.get_hcore() + u.get_veff(dm=u.make_rdm1())
    else:
        f = [mf.get_fock()]*2
    return [c.T.dot(x).dot(c) for c, x in ((ca, f[0]), (cb, f[1]))]


class DIIS(object):
    def __init__(self, n=8):
        self.x, self.e, self.n = [], [], n

    def step(self, x, e):
        self.x = (self.x + [x])[-self.n:]
        self.e = (self.e + [e])[-self.n:]
        k = len(self.x)
        B = np.zeros((k + 1, k + 1))
        B[:k, :k] = [[np.vdot(a, b).real for b in self.e] for a in self.e]
        s = max(np.max(np.abs(B)), 1e-300)
        B = B/s
        B[k, :k] = B[:k, k] = 1.0
        c = np.linalg.lstsq(B, np.eye(k + 1)[k], rcond=None)[0][:k]
        return sum(a*b for a, b in zip(c, self.x))


def flat(xs):
    return np.concatenate([np.asarray(x).ravel() for x in xs])


def unflat(v, like):
    out, k = [], 0
    for x in like:
        out.append(v[k:k + x.size].reshape(x.shape).copy())
        k += x.size
    return out


def solve(m, what, res, x, den, maxit=120):
    """Drive residuals to zero; returns amplitudes or None."""
    d = DIIS()
    for it in range(maxit):
        r = res(x)
        if r is harness.FAILED:
            return None
        r = [np.asarray(y) for y in r]
        if [y.shape for y in r] != [y.shape for y in x]:
            m.violate(what, "residual shapes %s for amplitudes %s" % (
                [y.shape for y in r], [y.shape for y in x]))
            return None
        step = flat([-a/b for a, b in zip(r, den)])
        if not np.all(np.isfinite(step)):
            break
        if step.size == 0 or np.max(np.abs(step)) < 1e-11:
            m.note('iterations', it)
            return x
        x = unflat(d.step(flat(x) + step, step), x)
    m.violate(what, "no convergence in %d iterations" % maxit)
    return None


def so_energy(d, fs, v, blocks, weight1=1.0):
    """sum f g + weights * <rs||pq> G over labelled blocks."""
    mult = dict(ciab=2, bcai=2, jkai=2, kaij=2, bjai=4)
    tot = 0.0
    for lab, g in blocks.items():
        if len(lab) == 2:
            i = spin.block_index(d, lab[::-1])
            tot += np.sum(fs[i].T*g)
        else:
            i = spin.block_index(d, lab[2:] + lab[:2])
            mixed = lab != lab.lower() and lab != lab.upper()
            w = 1.0 if mixed else 0.25*mult.get(lab.lower(), 1)
            tot += w*np.sum(v[i].transpose(2, 3, 0, 1)*g)
    return tot


def run_ci(case, m):
    from cqcpy import ci_utils as cu, integrals as it
    from pyscf import ci, fci, tdscf
    mf = meanfield(case['name'], 'UHF')
    mol = mf.mol
    ca, cb = mf.mo_coeff
    n = ca.shape[1]
    na, nb = mol.nelec
    h = mf.get_hcore()
    ha, hb = ca.T.dot(h).dot(ca), cb.T.dot(h).dot(cb)
    form, kind = case['basis'][0], case['basis'][1:]
    order = ['cis', 'cisd', 'cisdt', 'cisdtq'].index(kind) + 1
    fn = getattr(cu, case['basis'] + '_basis', None)
    enuc = mol.energy_nuc()
    if form == 'u':
        B = m.call(case['basis'] + '_basis', fn, n, na, nb)
        Ia = m.call('get_phys', it.get_phys, mol, ca, ca, ca, ca)
        Ib = m.call('get_phys', it.get_phys, mol, cb, cb, cb, cb)
        Iab = m.call('get_phys', it.get_phys, mol, ca, cb, ca, cb)
        if any(x is harness.FAILED for x in (B, Ia, Ib, Iab)):
            return
        el = lambda x, y: cu.ci_matrixel(x[0], x[1], y[0], y[1], ha, hb, Ia,
                                         Ib, Iab, enuc if x is y else 0.0)
    else:
        B = m.call(case['basis'] + '_basis', fn, 2*n, na + nb)
        I = m.call('get_physu_all', it.get_physu_all, mol, ca, cb)
        if B is harness.FAILED or I is harness.FAILED:
            return
        hs = np.zeros((2*n, 2*n))
        hs[:n, :n], hs[n:, n:] = ha, hb
        B = [x for x in B if np.sum(x.occ[:n]) == na]
        el = lambda x, y: cu.gci_matrixel(x, y, hs, I, enuc if x is y
                                          else 0.0)
    H = np.zeros((len(B), len(B)))
    for i, x in enumerate(B):
        for j, y in enumerate(B[:i + 1]):
            H[i, j] = H[j, i] = np.real(el(x, y))
    m.note('CI matrix elements', len(B)**2)
    e = np.linalg.eigvalsh(H)[0]
    full = order >= na + nb or (
        order >= min(na, n - na) + min(nb, n - nb))
    if full:
        eri = mol.intor('int2e')
        es = [ints.chem(eri, x, x, y, y)
              for x, y in ((ca, ca), (ca, cb), (cb, cb))]
        s = fci.direct_uhf.FCISolver()
        s.conv_tol = 1e-13
        want = s.kernel((ha, hb), es, n, (na, nb))[0] + enuc
        m.note('CI reference: FCI')
    elif order == 2:
        c = ci.UCISD(mf)
        c.verbose, c.conv_tol, c.max_cycle = 0, 1e-12, 200
        c.kernel()
        want = c.e_tot
        m.note('CI reference: CISD')
    else:
        m.check('Brillouin', np.max(np.abs(H[0, 1:]), initial=0.0) < 1e-5,
                "reference couples to singles", regime=case['name'])
        m.equal('CI energy', H[:1, 0], np.array([mf.e_tot]), tol=1e-8,
                absolute=True, regime=case['name'] + ' reference')
        t = tdscf.TDA(mf)
        t.verbose, t.conv_tol, t.nstates = 0, 1e-11, 3
        t.kernel()
        k = min(3, len(B) - 1)
        e = np.linalg.eigvalsh(H[1:, 1:])[:k]
        want = np.asarray(t.e)[:k] + mf.e_tot
        e = e[:len(want)]
        m.note('CI reference: singles (Tamm-Dancoff)')
    m.equal('CI energy', np.atleast_1d(e), np.atleast_1d(want), tol=1e-7,
            absolute=True, regime='%s %s' % (case['name'], case['basis']),
            cover=(form, 's%d' % order))


def run_case(case, m):
    if case['form'] == 'ci':
        return run_ci(case, m)
    from cqcpy import (cc_equations as ce, cc_energy as en, integrals as it,
                       ov_blocks as ob, spin_utils as su, utils as ut)
    rng = harness.rng_of(case['seed'], 'c23')
    name, ref, form = case['name'], case['ref'], case['form']
    mf = meanfield(name, ref)
    ecorr, da, db = cached(name, ref)
    ca, cb, noa, nob = orbitals(mf, ref, rng, case['rot'])
    n = ca.shape[1]
    nva, nvb = n - noa, n - nob
    d = spin.Dims(noa, nob, nva, nvb)
    fa, fb = focks(mf, ref, ca, cb)
    Fa, Fb = lib.f_blocks(fa, noa), lib.f_blocks(fb, nob)
    ea, eb = np.diag(fa), np.diag(fb)
    cell = name == 'cell'
    src = mf if cell else mf.mol
    if cell:
        phys = it.get_phys_sol
        eri = np.asarray(mf.with_df.get_ao_eri(compact=False)).real.reshape(
            (n,)*4)
    else:
        phys = it.get_phys
        eri = mf.mol.intor('int2e').reshape((mf.mol.nao_nr(),)*4)
    # reference two-electron tensor in spin-orbital order (occ a, occ b, ...)
    v = spin.embed2(d, ints.phys(eri, [ca]*4, True),
                    ints.phys(eri, [cb]*4, True),
                    ints.phys(eri, [ca, cb, ca, cb]))
    fs = spin.embed1(d, fa, fb)
    reg = '%s %s %s%s' % (name, ref, form, ' rotated' if case['rot'] else '')
    cov = (form,) + ((ref,) if ref == 'ROHF' else ()) + (
        ('rotated',) if case['rot'] else ()) + (('cell',) if cell else ())
    D1a, D1b = ut.D1(ea[noa:], ea[:noa]), ut.D1(eb[nob:], eb[:nob])
    D2a, D2b = ut.D2(ea[noa:], ea[:noa]), ut.D2(eb[nob:], eb[:nob])
    D2ab = ut.D2u(ea[noa:], eb[nob:], ea[:noa], eb[:nob])
    tr = lambda x: x.transpose(2, 3, 0, 1)
    F_ = harness.FAILED

    def call(name, *a, **k):
        for mod in (ce, en, it, ob, su, ut):
            if hasattr(mod, name):
                return m.call(name, getattr(mod, name), *a, **k)
        return m.call(name, None)

    def full_u():
        """Blocks of the three integral classes with library routines."""
        f1 = m.call('get_phys', phys, src, ca, ca, ca, ca, anti=True)
        f2 = m.call('get_phys', phys, src, cb, cb, cb, cb, anti=True)
        f3 = m.call('get_phys', phys, src, ca, cb, ca, cb)
        if any(x is F_ for x in (f1, f2, f3)):
            return None
        f1, f2, f3 = [np.real(x) if cell else x for x in (f1, f2, f3)]
        A = (noa, nva)
        Bn = (nob, nvb)
        return (call('make_two_e_blocks', f1, *(A*4)),
                call('make_two_e_blocks', f2, *(Bn*4)),
                call('make_two_e_blocks_full', f3, *(A + Bn + A + Bn)))
    if form == 'r':
        V = m.call('get_phys', phys, src, ca, ca, ca, ca)
        if V is F_:
            return
        V = np.real(V) if cell else V
        RI = call('make_two_e_blocks_full', V, *((noa, nva)*4))
        if RI is F_:
            return
        D2 = ut.D2(ea[noa:], ea[:noa])
        x = solve(m, 'rccsd_stanton', lambda t: call(
            'rccsd_stanton', Fa, RI, *t),
            [np.zeros((nva, noa)), np.zeros((nva, nva, noa, noa))],
            [D1a, D2])
        if x is None:
            return
        e = call('rcc_energy', x[0], x[1], Fa.ov, RI.oovv)
        y = solve(m, 'rccsd_lambda_opt', lambda l: call(
            'rccsd_lambda_opt', Fa, RI, *l, *x),
            [np.zeros((noa, nva)), np.zeros((noa, noa, nva, nva))],
            [D1a.T, tr(D2)])
        if y is None:
            return
        T, L = tuple(x), tuple(y)
        g = {}
        for nm, lab in R.items():
            g[lab] = call('rccsd_' + nm, *T, *L)
            if g[lab] is F_:
                return
        g['ia'], g['iJaB'] = L
        blocks = restricted(g)
    elif form == 'u':
        I3 = full_u()
        if I3 is None or any(z is F_ for z in I3):
            return
        Ia, Ib, Iab = I3
        x0 = [np.zeros((nva, noa)), np.zeros((nvb, nob)),
              np.zeros((nva, nva, noa, noa)), np.zeros((nva, nvb, noa, nob)),
              np.zeros((nvb, nvb, nob, nob))]

        def join(r):
            return r if r is F_ else list(r[0]) + list(r[1])
        x = solve(m, 'uccsd_stanton', lambda t: join(call(
            'uccsd_stanton', Fa, Fb, Ia, Ib, Iab, tuple(t[:2]),
            tuple(t[2:]))), x0, [D1a, D1b, D2a, D2ab, D2b])
        if x is None:
            return
        T1, T2 = tuple(x[:2]), tuple(x[2:])
        e = call('ucc_energy', T1, T2, Fa.ov, Fb.ov, Ia.oovv, Ib.oovv,
                 Iab.oovv)
        y = solve(m, 'uccsd_lambda_opt', lambda l: join(call(
            'uccsd_lambda_opt', Fa, Fb, Ia, Ib, Iab, tuple(l[:2]),
            tuple(l[2:]), T1, T2)),
            [z.T.copy() for z in x0[:2]] + [tr(z).copy() for z in x0[2:]],
            [D1a.T, D1b.T, tr(D2a), tr(D2ab), tr(D2b)])
        if y is None:
            return
        L1, L2 = tuple(y[:2]), tuple(y[2:])
        blocks = {}
        for nm, labs in U.items():
            g = call('uccsd_' + nm, *(T1 + T2 + L1 + L2))
            if g is F_:
                return
            for lab, z in zip(labs.split(), g):
                blocks[lab] = z
        blocks['ia'], blocks['IA'] = L1
        blocks['ijab'], blocks['iJaB'], blocks['IJAB'] = L2
    else:
        N = (noa, nva, nob, nvb)
        F = call('F_to_spin', Fa, Fb, *N)
        tmp = mf
        if case['rot'] or ref == 'ROHF':
            # a mean-field object with these orbitals
            import copy
            from pyscf import scf
            tmp = copy.copy(mf if ref == 'UHF' or cell else
                            scf.addons.convert_to_uhf(mf))
            tmp.mo_coeff = np.array([ca, cb])
            tmp.mo_occ = np.array([[1.]*noa + [0.]*nva,
                                   [1.]*nob + [0.]*nvb])
        I = call('eri_blocks', tmp)
        if F is F_ or I is F_:
            return
        if cell:
            for k in lib.N9:
                setattr(I, k, np.real(getattr(I, k)))
        eo = np.concatenate([ea[:noa], eb[:nob]])
        ev = np.concatenate([ea[noa:], eb[nob:]])
        D1, D2 = ut.D1(ev, eo), ut.D2(ev, eo)
        no, nv = d.no, d.nv
        s = case.get('solver', 'ccsd_stanton')
        x = solve(m, s, lambda t: call(s, F, I, *t),
                  [np.zeros((nv, no)), np.zeros((nv, nv, no, no))], [D1, D2])
        if x is None:
            return
        e = call('cc_energy', x[0], x[1], F.ov, I.oovv)
        lam = case.get('lam', 'ccsd_lambda_opt')
        reg += ' %s %s' % (s, lam)
        extra = ()
        if lam.endswith('_int'):
            extra = (call('lambda_int', F, I, *x),)
            if extra[0] is F_:
                return
        y = solve(m, lam, lambda l: call(lam, F, I, *l, *x, *extra),
                  [np.zeros((no, nv)), np.zeros((no, no, nv, nv))],
                  [D1.T, tr(D2)])
        if y is None:
            return
        big = {}
        opt = bool(rng.random() < 0.5)
        for lab in ('ba', 'ji', 'ai', 'ciab', 'jkai', 'cdab', 'bjai', 'klij',
                    'bcai', 'kaij', 'abij'):
            nm = 'ccsd_%drdm_%s' % (len(lab)//2, lab)
            if opt and hasattr(ce, nm + '_opt'):
                nm += '_opt'
            big[lab] = call(nm, *x, *y)
            if big[lab] is F_:
                return
        big['ia'], big['ijab'] = y
        D = spin.Dims(no, 0, nv, 0)
        tot = so_energy(D, fs, v, big)
        oidx = {True: (slice(0, nva), slice(nva, None)),
                False: (slice(0, noa), slice(noa, None))}
        blocks = {}
        for lab in ('ba', 'ji', 'ai', 'ia'):
            for spn in (0, 1):
                sl = tuple(oidx[c in 'ab'][spn] for c in lab)
                blocks[lab.upper() if spn else lab] = big[lab][sl]
    if e is F_:
        return
    if form != 'so':
        tot = so_energy(d, fs, v, blocks)
    m.equal('CC energy', np.array([e]), np.array([ecorr]), tol=5e-9,
            absolute=True, regime=reg, cover=cov)
    m.equal('RDM energy', np.array([tot]), np.array([e]), tol=1e-8,
            absolute=True, regime=reg, cover=cov)
    for low, C, no, want in ((True, ca, noa, da), (False, cb, nob, db)):
        s = (lambda x: x) if low else str.upper
        g = np.zeros((n, n))
        g[:no, :no] = blocks[s('ji')]
        g[no:, no:] = blocks[s('ba')]
        g[no:, :no] = blocks[s('ai')]
        g[:no, no:] = blocks[s('ia')]
        g[range(no), range(no)] += 1.0
        g = C.dot(0.5*(g + g.T)).dot(C.T)
        m.equal('1-RDM', g, want, tol=5e-8, absolute=True, regime=reg,
                cover=cov)


def restricted(g):
    """All spin blocks of a closed-shell density from its alpha-beta part."""
    out = {}
    for lab in ('ba', 'ji', 'ai', 'ia'):
        out[lab] = out[lab.upper()] = g[lab]
    for lab, x in g.items():
        if len(lab) == 2 or lab in ('bJaI', 'bJiA'):
            continue
        out[lab] = x
        low = lab.lower()
        if low in ('ciab', 'cdab', 'klij', 'kaij', 'abij', 'ijab'):
            y = x - x.transpose(0, 1, 3, 2)
        else:
            y = x - x.transpose(1, 0, 2, 3)
        out[low] = out[low.upper()] = y
        if low in ('ciab', 'jkai', 'bcai', 'kaij'):
            out[lab.swapcase()] = x
    j, k = g['bJaI'], g['bJiA'].transpose(0, 1, 3, 2)
    out['bJaI'] = out['BjAi'] = j
    out['bJAi'] = out['BjaI'] = -k
    out['bjai'] = out['BJAI'] = j - k
    return out
