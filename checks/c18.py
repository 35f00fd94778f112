"""C18: molecular integrals."""
import numpy as np
from mon import harness, lib, gen, ints

ID = "C18"
RULE = ("molecules x four different random orbital matrices per spin with "
        "different column counts (empty included), memory layouts, "
        "RHF/ROHF/UHF objects with arbitrary orbitals; every routine "
        "compared with a tensor contraction of the full AO array; distinct = "
        "(routine, molecule, column counts)")
ASSUMPTIONS = ["pyscf int2e in full storage is the AO reference",
               "real orbitals (the AO transformation rejects complex ones)"]
F4 = ['get_chem', 'get_chem+', 'get_chem_anti', 'get_phys', 'get_phys+',
      'get_phys_anti', 'get_phys_gen', 'get_phys_gen+']
F8 = ['get_chemu', 'get_chemu+', 'get_chem_antiu', 'get_phys_antiu']
F2 = ['get_chemu_all', 'get_chemu_all+', 'get_chem_antiu_all',
      'get_physu_all', 'get_physu_all+', 'get_phys_antiu_all']
FG = ['get_physu_all_gen', 'get_physu_all_gen+', 'get_phys_antiu_all_gen']

PARTS = [[0, a, b, c] for a in range(2) for b in range(max(0, a) + 2)
         for c in range(max(0, a, b) + 2)]


def partition(rng):
    """Which of four positions agree: all different half of the time."""
    out = [0]
    for j in range(1, 4):
        out.append(int(rng.integers(j)) if rng.random() < 0.45 else j)
    return [out[out[out[j]]] for j in range(4)]


def grouped(case, C, sizes):
    own = [C(case['same'] or k) for k in sizes]
    return [own[g] for g in case['part']]


def some_shared(rng, o):
    """Use one object in several positions of equal size."""
    o = list(o)
    for j in range(1, 4):
        k = int(rng.integers(j))
        if rng.random() < 0.5 and o[j].shape == o[k].shape:
            o[j] = o[k]
    return o


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    out = []
    # every way to use one orbital object in several positions, with equal
    # numbers of orbitals in all of them or different ones
    for rep in range(1 if tier == 'quick' else 5):
        for kind in '48':
            for mol in ('HF', 'H2O') if kind == '4' else ('HF',):
                for part in PARTS:
                    for same in (4, 5, 0):
                        out.append(dict(kind=kind, mol=mol, ref='RHF',
                                        part=part, same=same, lay='c',
                                        seed=int(rng.integers(2**31))))
    for rep in range(12 if tier == 'quick' else 80):
        for mol in ints.MOLS:
            for kind in ('4', '8', '2', 'g'):
                out.append(dict(kind=kind, mol=mol,
                                ref=str(rng.choice(['RHF', 'ROHF', 'UHF'])),
                                lay=str(rng.choice(['c', 'mix', 'f'])),
                                seed=int(rng.integers(2**31))))
    return out


def required(tier):
    return F4 + F8 + F2 + [f + ':' + r for f in FG for r in 'RU'] + [
        'spin-forbidden']


def conf(name):
    if name.endswith('+'):
        return name[:-1], dict(anti=True), True
    return name, {}, 'anti' in name


def meanfield(kind, mol, cr, occ):
    from pyscf import scf, dft
    mf = getattr(scf if 'HF' in kind else dft, kind)(mol)
    mf.verbose = 0
    mf.mo_coeff, mf.mo_occ = cr, occ
    return mf


def run_case(case, m):
    from cqcpy import integrals as I
    rng = harness.rng_of(case['seed'], case['kind'])
    mol, eri = ints.molecule(case['mol'])
    n = eri.shape[0]
    laid = {}

    # orbitals of small norm now and then
    sc = 1.0 if rng.random() < 0.8 else float(rng.choice([0.1, 0.01]))

    def L(x):
        # the same object stays the same object
        if id(x) not in laid:
            laid[id(x)] = (x, lib.lay(rng, x, case['lay']))
        return laid[id(x)][1]

    def C(k):
        return gen.rnd(rng, (n, k), sc)

    def size(*o):
        return 10.0*min(1.0, max([1e-3] + [np.abs(x).max() for x in o
                                           if x.size])**4)

    def sizes(lo=0):
        # now and then as many orbitals as basis functions, or more
        hi = min(n, 6) if rng.random() < 0.8 else min(n + 2, 13)
        k = [int(x) for x in rng.integers(lo if rng.random() < .15 else 1,
                                          hi + 1, 4)]
        # different orbitals whose numbers agree by pairs or altogether
        return [k[i] for i in partition(rng)]
    if case['kind'] == '4':
        s = sizes()
        o = [C(k) for k in s]
        u = rng.random()
        if 'part' in case:
            o = grouped(case, C, s)
            s = [x.shape[1] for x in o]
        elif u < 0.25:
            o = some_shared(rng, o)
        elif u < 0.5:
            # one orbital matrix, or close relatives, in several positions
            for j in range(1, 4):
                if rng.random() < 0.6:
                    o[j] = lib.kin(rng, o[int(rng.integers(j))])
            s = [x.shape[1] for x in o]
        mf = meanfield(str(rng.choice(['RHF', 'UHF', 'RKS'])), mol, None,
                       None)
        if rng.random() < 0.2:
            mf = mf.density_fit()
        for f in F4:
            name, kw, anti = conf(f)
            want = (ints.phys if 'phys' in f else ints.chem_anti)(
                eri, o, anti)
            got = m.call(f, getattr(I, name, None),
                         mf if 'gen' in f else mol, *[L(x) for x in o], **kw)
            m.equal(f, got, want, tol=1e-11, mag=size(*o),
                    regime="%s %s" % (case['mol'], s))
    elif case['kind'] == '8':
        s, p = sizes(), sizes()
        u = rng.random()
        if u < 0.2:
            # pairs of equal numbers in both spins
            i = partition(rng)
            s, p = [s[x] for x in i], [p[x] for x in i]
        elif u < 0.4:
            p = s
        a, b = [C(k) for k in s], [C(k) for k in p]
        if 'part' in case:
            a, b = grouped(case, C, s), grouped(case, C, p)
            s, p = ([x.shape[1] for x in y] for y in (a, b))
        elif u > 0.85:
            # both spins use the same orbitals
            a = b = [C(s[0])]*4
        elif u > 0.65:
            # beta orbitals closely related to the alpha orbitals
            b = [lib.kin(rng, x) for x in a]
        elif u > 0.55:
            # one orbital matrix shared by several positions
            a, b = some_shared(rng, a), some_shared(rng, b)
        for f in F8:
            name, kw, anti = conf(f)
            want = (ints.phys_spin if 'phys' in f else ints.chem_spin)(
                eri, a, b, anti)
            got = m.call(f, getattr(I, name, None), mol, *[L(x) for x in a],
                         *[L(x) for x in b], **kw)
            m.equal(f, got, want, tol=1e-11, mag=size(*a, *b),
                    regime="%s %s %s" % (case['mol'], s, p))
            forbid(m, f, got, a, b, anti)
    elif case['kind'] == '2':
        a, b = C(sizes()[0]), C(sizes()[0])
        if rng.random() < 0.5:
            b = lib.kin(rng, a)
        for f in F2:
            name, kw, anti = conf(f)
            want = (ints.phys_spin if 'phys' in f else ints.chem_spin)(
                eri, [a]*4, [b]*4, anti)
            got = m.call(f, getattr(I, name, None), mol, L(a), L(b), **kw)
            m.equal(f, got, want, tol=1e-11, mag=size(a, b),
                    regime="%s %d %d" % (case['mol'], a.shape[1],
                                         b.shape[1]))
            forbid(m, f, got, [a]*4, [b]*4, anti)
    else:
        k = sizes()[0] or 1
        ref = case['ref']
        if ref == 'UHF':
            a, b = C(k), C(k)
            if rng.random() < 0.4:
                b = lib.kin(rng, a)
            cr = np.array([a, b]) if rng.random() < 0.7 else (a, b)
            occ = rng.integers(0, 2, (2, k)).astype(float)
        else:
            a = b = cr = C(k)
            occ = rng.choice([0., 2.] if ref == 'RHF' else [0., 1., 2.], k)
        mf = meanfield(ref if rng.random() < 0.7 else {
            'RHF': 'RKS', 'ROHF': 'ROKS', 'UHF': 'UKS'}[ref], mol, cr, occ)
        if rng.random() < 0.2:
            # the shortcuts are about the exact integrals
            mf = mf.density_fit()
            mf.mo_coeff, mf.mo_occ = cr, occ
        for f in FG:
            name, kw, anti = conf(f)
            want = ints.phys_spin(eri, [a]*4, [b]*4, anti)
            got = m.call(f, getattr(I, name, None), mf, **kw)
            m.equal(f, got, want, tol=1e-11, mag=size(a, b),
                    regime="%s %d %s" % (case['mol'], k, ref),
                    cover=(ref[0],))


def forbid(m, f, got, a, b, anti):
    """Elements that violate spin conservation are exactly zero."""
    if got is harness.FAILED or 'phys' in f:
        return
    s = [np.array([0]*x.shape[1] + [1]*y.shape[1]) for x, y in zip(a, b)]
    if got.shape != tuple(len(x) for x in s):
        return
    e = lambda i, j: np.expand_dims(s[i], [x for x in range(4) if x != i]) \
        == np.expand_dims(s[j], [x for x in range(4) if x != j])
    ok = (e(0, 1) & e(2, 3))
    if anti:
        ok = ok | (e(0, 3) & e(2, 1))
    bad = np.abs(got)*~ok
    m.check('spin-forbidden', not bad.any(),
            "%s: spin-forbidden elements up to %g" % (f, bad.max()
                                                      if bad.size else 0),
            regime=f, nontrivial=bool((~ok).any()))
