"""C20: ERI block container."""
import numpy as np
from mon import harness, lib, gen, ints
from .c18 import meanfield
from .c19 import ao

ID = "C20"
RULE = ("molecules and cells x RHF/ROHF/UHF objects with arbitrary orbitals "
        "and occupation patterns in arbitrary order (aufbau, permuted, "
        "random, all/none occupied) x codes 0-9; every stored block compared "
        "with the antisymmetrised contraction of the AO array, flags and "
        "stored attributes compared with the selection; distinct = (block, "
        "reference, pattern, numbers of occupied/virtual, code)")
ASSUMPTIONS = ["occupations are 0/1/2 (restricted) or 0/1 (unrestricted)"]
BLOCKS = ['vvvv', 'vvvo', 'vovv', 'vvoo', 'vovo', 'oovv', 'vooo', 'ooov',
          'oooo']


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    q = tier == 'quick'
    out = []

    def pick(x):
        return x[int(rng.integers(len(x)))]
    for rep in range(2 if q else 25):
        for mol in ints.MOLS:
            for ref in ('RHF', 'ROHF', 'UHF'):
                out.append(dict(where='mol', name=mol, ref=ref,
                                pat=pick(['aufbau', 'random', 'random',
                                          'empty', 'full']),
                                seed=int(rng.integers(2**31))))
    for rep in range(1 if q else 6):
        for mol in ints.MOLS:
            for ref in ('RHF', 'ROHF', 'UHF'):
                # many orbitals; orbitals of small norm
                out.append(dict(where='mol', name=mol, ref=ref, many=True,
                                pat=pick(['few', 'few', 'most']),
                                scale=pick([1.0, 0.1, 0.01]),
                                seed=int(rng.integers(2**31))))
    for rep in range(2 if q else 15):
        for c in ints.CELLS:
            for ref in ('RHF', 'ROHF', 'UHF'):
                out.append(dict(where='cell', name=c, ref=ref,
                                pat=pick(['aufbau', 'random', 'random']),
                                k=pick([[0, 0, 0], [0.1, 0.2, 0.05]]),
                                seed=int(rng.integers(2**31))))
    return out


def required(tier):
    return [b + c for b in BLOCKS for c in
            (':mol RHF', ':mol ROHF', ':mol UHF', ':cell RHF', ':cell UHF',
             ':single', ':all')] + ['flags', 'stored']


def occupations(rng, ref, pat, k):
    def one(vals):
        if pat == 'empty':
            return np.zeros(k)
        if pat == 'full':
            return np.full(k, max(vals))
        o = rng.choice(vals, k)
        if pat in ('few', 'most'):
            # few occupied or few virtual orbitals
            o = np.full(k, 0. if pat == 'few' else max(vals))
            j = rng.permutation(k)[:int(rng.integers(1, 3))]
            o[j] = rng.choice([x for x in vals if x] if pat == 'few' else
                              [x for x in vals if x < max(vals)], len(j))
        return -np.sort(-o) if pat == 'aufbau' else o
    if ref == 'RHF':
        return one([0., 2.])
    if ref == 'ROHF':
        return one([0., 1., 2.])
    a, b = one([0., 1.]), one([0., 1.])
    u = rng.random()
    if u < 0.25:
        # as many electrons of both spins, in different orbitals
        b = rng.permutation(a)
    elif u < 0.35:
        b = a.copy()
    return np.array([a, b])


def run_case(case, m):
    from cqcpy import integrals as I
    rng = harness.rng_of(case['seed'], case['where'])
    ref, z = case['ref'], False
    if case['where'] == 'mol':
        mol, eri = ints.molecule(case['name'])
        n = eri.shape[0]
    else:
        from pyscf.pbc import scf
        cell = ints.cell(case['name'])
        n = cell.nao_nr()
        k = np.array(case['k'], dtype=float)
        z = bool(rng.random() < 0.6)
    # now and then as many orbitals as basis functions
    hi = min(n, 6) if rng.random() < 0.8 else min(n, 12)
    nmo = int(rng.integers(2 if n > 1 else 1, hi + 1))
    if case.get('many'):
        nmo = min(n, 11)
    s = case.get('scale', 1.0)
    for _ in range(50):
        occ = occupations(rng, ref, case['pat'], nmo)
        if case['where'] == 'mol':
            break
        # the periodic transformation needs non-empty spaces for each spin
        o2 = [occ > 0, occ > 1] if ref != 'UHF' else [occ[0] > 0, occ[1] > 0]
        if all(x.any() and not x.all() for x in o2):
            break
    else:
        occ = np.array([2.] + [0.]*(nmo - 1))
        if ref == 'UHF':
            occ = np.array([occ/2, occ/2])
        if nmo < 2:
            m.note('skipped: one orbital')
            return
    if ref == 'UHF':
        a, b = gen.rnd(rng, (n, nmo), 1.0, z), gen.rnd(rng, (n, nmo), 1.0, z)
        if rng.random() < 0.3:
            b = lib.kin(rng, a)
        cr = np.array([a, b])
        oa, ob = occ[0] > 0, occ[1] > 0
    else:
        a = b = cr = gen.rnd(rng, (n, nmo), 1.0, z)
        oa, ob = occ > 0, occ > 1
    if case['where'] == 'mol':
        mf = meanfield(ref, mol, s*cr, occ)
    else:
        mf = getattr(scf, ref)(cell, kpt=k)
        mf.verbose = 0
        mf.mo_coeff, mf.mo_occ = s*cr, occ
        eri = ao(mf.with_df, case['name'], [k]*4, cell)
    a, b = s*a, s*b
    A = dict(o=a[:, oa], v=a[:, ~oa])
    B = dict(o=b[:, ob], v=b[:, ~ob])
    tag = '%s %s' % (case['where'], ref)
    want = {x: ints.phys_spin(eri, [A[c] for c in x], [B[c] for c in x],
                              True) for x in BLOCKS}
    for code in range(10):
        E = m.call('eri_blocks', getattr(I, 'eri_blocks', None), mf,
                   code=code) if code or rng.random() < 0.5 else \
            m.call('eri_blocks', getattr(I, 'eri_blocks', None), mf)
        if E is harness.FAILED:
            continue
        for i, x in enumerate(BLOCKS, 1):
            sel = code in (0, i)
            flag = getattr(E, 'has_' + x, None)
            m.check('flags', flag is not None and bool(flag) == sel,
                    "code %d: has_%s is %r" % (code, x, flag),
                    regime='%d %s' % (code, x))
            got = getattr(E, x, None)
            m.check('stored', (got is not None) == sel,
                    "code %d: block %s %s" % (
                        code, x, 'missing' if sel else 'stored'),
                    regime='%d %s' % (code, x))
            if got is not None and sel:
                m.equal(x, got, want[x], tol=1e-10, mag=10.0*s**4,
                        regime='%s %s o%d.%d v%d.%d code%d' % (
                            tag, case['pat'], oa.sum(), ob.sum(),
                            (~oa).sum(), (~ob).sum(), min(code, 1)),
                        cover=(tag, 'single' if code else 'all'))
