"""C19: periodic and k-point integrals."""
import numpy as np
from .c18 import partition, some_shared, grouped, PARTS
from mon import harness, lib, gen, ints

ID = "C19"
RULE = ("small cells (skewed) x k-point (Gamma and general) or k-mesh "
        "(Gamma-centred, shifted, wrapped, symmetric without Gamma, reordered, "
        "moved by reciprocal vectors) x random real/complex orbitals, "
        "different for each index; all k-point quadruples of the mesh, "
        "allowed and forbidden; compared with contractions of the periodic "
        "AO array; distinct = (routine, cell, k-points, column counts, "
        "dtype)")
ASSUMPTIONS = ["the AO reference is the density-fitting object's own AO "
               "array at the same k-points", "orbital sets are not empty"]
F4 = ['get_chem_sol', 'get_chem_sol+', 'get_phys_sol', 'get_phys_sol+',
      'get_phys_gen', 'get_phys_gen+']
F8 = ['get_chemu_sol', 'get_chemu_sol+', 'get_chem_antiu_sol',
      'get_phys_antiu_sol']
F2 = ['get_chemu_all_sol', 'get_chemu_all_sol+', 'get_physu_all_sol',
      'get_physu_all_sol+']
FG = ['get_physu_all_gen', 'get_physu_all_gen+', 'get_phys_antiu_all_gen']
FK = ['get_chem_solk', 'get_chem_solk+', 'get_phys_solk', 'get_phys_solk+']
KPTS = [[0, 0, 0], [0.1, 0.2, 0.05], [-0.3, 0.15, 0.4]]
MESH = [[1, 1, 2], [1, 2, 1], [1, 1, 3], [1, 2, 2], [2, 1, 1]]
WIDE = [[1, 1, 4], [1, 1, 5], [3, 1, 2], [2, 2, 2], [1, 1, 6], [1, 3, 3],
        [1, 1, 1]]


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    q = tier == 'quick'
    out = []

    def pick(x):
        return x[int(rng.integers(len(x)))]
    nth = [int(rng.integers(6))]

    def kset():
        nth[0] += 1
        return ints.KSETS[nth[0] % len(ints.KSETS)]
    names = list(ints.CELLS)
    for rep in range(8 if q else 40):
        for name in names:
            for ik in range(len(KPTS)):
                out.append(dict(kind='gen', cell=name, k=KPTS[ik],
                                cplx=bool(rng.random() < 0.6),
                                ref=pick(['RHF', 'ROHF', 'UHF']),
                                lay=pick(['c', 'mix']),
                                seed=int(rng.integers(2**31))))
    for part in PARTS:
        for same in (0, 2):
            out.append(dict(kind='gen', cell=pick(['HeH', 'H2']),
                            k=KPTS[int(rng.integers(len(KPTS)))],
                            cplx=bool(rng.random() < 0.6), ref='UHF',
                            lay='c', part=part, same=same,
                            seed=int(rng.integers(2**31))))
    for rep in range(5 if q else 14):
        for name in names[:3]:
            for mesh in MESH:
                out.append(dict(kind='kpt', cell=name, mesh=mesh,
                                kset=kset(),
                                n=40 if q else 64,
                                seed=int(rng.integers(2**31))))
    # more k-points
    for rep in range(1 if q else 6):
        for mesh in WIDE:
            out.append(dict(kind='kpt', cell=pick(names[:2]), mesh=mesh,
                            kset=kset(), n=30,
                            seed=int(rng.integers(2**31))))
    for mesh in ([1, 1, 4], [1, 1, 5], [3, 1, 2], [1, 1, 1]) if q else WIDE[:6]:
        out.append(dict(kind='table', cell='H2', mesh=mesh, kset=kset(),
                        seed=int(rng.integers(2**31))))
    for rep in range(3 if q else 8):
        for name in names[:3]:
            for mesh in MESH:
                out.append(dict(kind='table', cell=name, mesh=mesh,
                                kset=kset(),
                                seed=int(rng.integers(2**31))))
    out.sort(key=lambda c: ['table', 'kpt', 'gen'].index(c['kind']))
    return out


def required(tier):
    return [f + c for f in F4 + F8 + F2 for c in (':z', ':d')] + [
        f + ':' + r for f in FG for r in 'RU'] + [
            f + c for f in FK for c in (':allowed', ':forbidden')] + [
                'table h1', 'table h2:chem', 'table h2:phys']


def conf(name):
    if name.endswith('+'):
        return name[:-1], dict(anti=True), True
    return name, {}, 'anti' in name


NAMES = dict(chem=['chem', 'chem', 'Chem', 'c', 'chemist'],
             phys=['phys', 'phys', 'Phys', 'p', 'physicist'])
_eri = {}


def ao(df, name, ks, cell):
    """AO array (p* q | r* s) at four k-points."""
    key = (name, tuple(np.round(np.ravel(ks), 10)))
    if key not in _eri:
        n = cell.nao_nr()
        _eri[key] = np.asarray(df.get_eri(np.asarray(ks),
                                          compact=False)).reshape((n,)*4)
        if len(_eri) > 4000:
            _eri.clear()
    return _eri[key]


def run_case(case, m):
    from cqcpy import integrals as I
    from pyscf.pbc import scf, dft
    rng = harness.rng_of(case['seed'], case['kind'])
    cell = ints.cell(case['cell'])
    n = cell.nao_nr()
    # orbitals of small norm now and then
    sc = 1.0 if rng.random() < 0.8 else float(rng.choice([0.1, 0.01]))
    mp = dict(tol=1e-10, mag=10.0*sc**4)
    if case['kind'] == 'gen':
        k = np.array(case['k'], dtype=float)
        mf = scf.UHF(cell, kpt=k)
        eri = ao(mf.with_df, case['cell'], [k]*4, cell)
        z = case['cplx']
        laid = {}

        def L(x):
            # the same object stays the same object
            if id(x) not in laid:
                laid[id(x)] = (x, lib.lay(rng, x, case['lay']))
            return laid[id(x)][1]

        def C(kk, zz=None):
            return gen.rnd(rng, (n, kk), sc, z if zz is None else zz)

        def sizes():
            # now and then more orbitals than basis functions
            hi = min(n, 4) if rng.random() < 0.8 else 8
            k = [int(x) for x in rng.integers(1, hi + 1, 4)]
            return [k[i] for i in partition(rng)]
        zc = ('z' if z else 'd',)
        kz = 'G' if not k.any() else 'k'
        s, p = sizes(), sizes()
        o, b = [C(x) for x in s], [C(x) for x in p]
        u = rng.random()
        if u < 0.25:
            # beta orbitals closely related to the alpha orbitals
            b = [lib.kin(rng, x) for x in o]
        elif u < 0.4:
            o, b = some_shared(rng, o), some_shared(rng, b)
        elif u < 0.6:
            # one orbital matrix, or close relatives, in several positions
            for x in (o, b):
                for j in range(1, 4):
                    if rng.random() < 0.6:
                        x[j] = lib.kin(rng, x[int(rng.integers(j))])
        if 'part' in case:
            o, b = grouped(case, C, s), grouped(case, C, p)
        s, p = [x.shape[1] for x in o], [x.shape[1] for x in b]
        for f in F4:
            name, kw, anti = conf(f)
            want = (ints.phys if 'phys' in f else ints.chem_anti)(
                eri, o, anti)
            got = m.call(f, getattr(I, name, None), mf, *[L(x) for x in o],
                         **kw)
            m.equal(f, got, want, cover=zc, regime="%s %s %s %s" % (
                case['cell'], k, s, zc), **mp)
        for f in F8:
            name, kw, anti = conf(f)
            want = (ints.phys_spin if 'phys' in f else ints.chem_spin)(
                eri, o, b, anti)
            got = m.call(f, getattr(I, name, None), mf, *[L(x) for x in o],
                         *[L(x) for x in b], **kw)
            m.equal(f, got, want, cover=zc, regime="%s %s %s %s" % (
                case['cell'], k, s + p, zc), **mp)
        for f in F2:
            name, kw, anti = conf(f)
            want = (ints.phys_spin if 'phys' in f else ints.chem_spin)(
                eri, [o[0]]*4, [b[0]]*4, anti)
            got = m.call(f, getattr(I, name, None), mf, L(o[0]), L(b[0]),
                         **kw)
            m.equal(f, got, want, cover=zc, regime="%s %s %s %s" % (
                case['cell'], kz, s[:1] + p[:1], zc), **mp)
        ref = case['ref']
        mg = getattr(scf, ref)(cell, kpt=k)
        kk = int(rng.integers(1, n + 1))
        a = C(kk)
        if ref == 'UHF':
            bb = C(kk)
            if rng.random() < 0.4:
                bb = lib.kin(rng, a)
            mg.mo_coeff = np.array([a, bb])
            mg.mo_occ = rng.integers(0, 2, (2, kk)).astype(float)
        else:
            bb = mg.mo_coeff = a
            mg.mo_occ = rng.choice([0., 2.], kk)
        for f in FG:
            name, kw, anti = conf(f)
            want = ints.phys_spin(eri, [a]*4, [bb]*4, anti)
            got = m.call(f, getattr(I, name, None), mg, **kw)
            m.equal(f, got, want, cover=(ref[0],), regime="%s %s %s %d" % (
                case['cell'], kz, ref, kk), **mp)
        return
    kpts = ints.kpoints(cell, case['mesh'], case['kset'])
    nk = len(kpts)
    kind = 'KRHF' if rng.random() < 0.8 else \
        'KRKS' if case['kind'] == 'table' else 'KUHF'
    kmf = getattr(scf if 'HF' in kind else dft, kind)(cell, kpts)
    kmf.verbose = 0
    G = 2*np.pi*np.linalg.inv(cell.lattice_vectors())

    def conserves(k1, k2, k3, k4):
        d = (kpts[k1] - kpts[k2] + kpts[k3] - kpts[k4])
        x = d.dot(np.linalg.inv(G.T))
        return np.abs(x - np.round(x)).max() < 1e-8
    reg0 = "%s %s %s" % (case['cell'], case['mesh'], case['kset'])
    if case['kind'] == 'kpt':
        quads = [(a, b, c, d) for a in range(nk) for b in range(nk)
                 for c in range(nk) for d in range(nk)]
        ok = [q for q in quads if conserves(*q)]
        no = [q for q in quads if not conserves(*q)]
        half = case['n']//2
        pick = [ok[x] for x in rng.permutation(len(ok))[:half]] + [
            no[x] for x in rng.permutation(len(no))[:half]]
        for q in pick:
            s = [int(x) for x in rng.integers(
                1, (n if rng.random() < 0.9 else 7) + 1, 4)]
            o = [gen.rnd(rng, (n, x), sc, bool(rng.random() < 0.8))
                 for x in s]
            if rng.random() < 0.4:
                for j in range(1, 4):
                    if rng.random() < 0.6:
                        o[j] = lib.kin(rng, o[int(rng.integers(j))])
                s = [x.shape[1] for x in o]
            for f in FK:
                name, kw, anti = conf(f)
                ph = 'phys' in f
                # q is the quadruple in chemists' order
                kk = (q[0], q[2], q[1], q[3]) if ph else q
                oo = [o[0], o[2], o[1], o[3]] if ph else o
                allowed = conserves(*q)
                if allowed:
                    eri = ao(kmf.with_df, case['cell'],
                             [kpts[x] for x in q], cell)
                    want = ints.chem(eri, *o)
                    if anti:
                        q2 = (q[0], q[3], q[2], q[1])
                        eri = ao(kmf.with_df, case['cell'],
                                 [kpts[x] for x in q2], cell)
                        want = want - ints.chem(
                            eri, o[0], o[3], o[2], o[1]).transpose(
                                0, 3, 2, 1)
                else:
                    want = np.zeros(s)
                if ph:
                    want = want.transpose(0, 2, 1, 3)
                kin = [list(kk), tuple(kk), np.array(kk)][
                    int(rng.integers(3))]
                got = m.call(f, getattr(I, name, None), kmf, kin, *oo, **kw)
                if allowed:
                    m.equal(f, got, want, cover=('allowed',),
                            regime="%s %s" % (reg0, q), **mp)
                elif got is not harness.FAILED:
                    got = np.asarray(got)
                    m.check(f, got.shape == want.shape and not got.any(),
                            "quadruple %s does not conserve momentum but "
                            "gives shape %s" % (kk, got.shape),
                            cover=('forbidden',),
                            regime="%s forbidden" % reg0)
        return
    # full table
    nmo = int(rng.integers(1, n + 1))
    kmf.mo_coeff = [gen.rnd(rng, (n, nmo), sc, True) for _ in range(nk)]
    if rng.random() < 0.3:
        kmf.mo_coeff = np.array(kmf.mo_coeff)
    elif rng.random() < 0.3:
        # real orbitals, for all or for one k-point
        real = range(nk) if rng.random() < 0.5 else [int(rng.integers(nk))]
        for j in real:
            kmf.mo_coeff[j] = kmf.mo_coeff[j].real.copy()
    kmf.mo_occ = [np.array([2.]*1 + [0.]*(nmo - 1)) for _ in range(nk)]
    hc = kmf.get_hcore()
    for order in ('chem', 'phys'):
        r = m.call('table', getattr(I, 'get_solk_integrals', None), kmf,
                   str(rng.choice(NAMES[order]))) \
            if rng.random() < 0.5 or order == 'phys' else \
            m.call('table', getattr(I, 'get_solk_integrals', None), kmf)
        if r is harness.FAILED:
            continue
        h1, h2 = r
        want = np.array([C.conj().T @ h @ C for C, h in
                         zip(kmf.mo_coeff, hc)])
        m.equal('table h1', np.asarray(h1), want, regime=reg0, tol=1e-10,
                mag=10.0*sc**2)
        h2 = np.asarray(h2)
        if not m.check('table shape', h2.shape == (nk,)*3 + (nmo,)*4,
                       "shape %s" % (h2.shape,)):
            continue
        for a in range(nk):
            for b in range(nk):
                for c in range(nk):
                    q = [(a, b, c, d) for d in range(nk)
                         if conserves(*((a, b, c, d) if order == 'chem'
                                        else (a, c, b, d)))]
                    assert len(q) == 1
                    d = q[0][3]
                    qc = (a, b, c, d) if order == 'chem' else (a, c, b, d)
                    eri = ao(kmf.with_df, case['cell'],
                             [kpts[x] for x in qc], cell)
                    want = ints.chem(eri, *[kmf.mo_coeff[x] for x in qc])
                    if order == 'phys':
                        want = want.transpose(0, 2, 1, 3)
                    m.equal('table h2', h2[a, b, c], want, cover=(order,),
                            regime="%s %s" % (reg0, (a, b, c)), **mp)
