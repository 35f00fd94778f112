"""C17: CI coefficients from CC amplitudes."""
import numpy as np
from mon import harness, lib, gen, ci, spin

ID = "C17"
RULE = ("dimensions (equal and unequal spins, empty spaces) x orders 1-4 x "
        "amplitude profiles (all, singles only, doubles only, single "
        "elements, scaled) x real/complex x memory layout; compared with "
        "exp(T)|ref> built from operator strings; distinct = (form, dims, "
        "order, profile, dtype)")
ASSUMPTIONS = ["both spins have the same number of orbitals; general form "
               "uses an even number of spin orbitals"]

UQ = [(1, 1, 1, 1), (2, 1, 2, 3), (2, 2, 2, 2), (1, 2, 3, 2), (3, 2, 1, 2),
      (0, 2, 3, 1), (2, 0, 1, 3), (3, 1, 1, 3), (4, 1, 1, 4), (0, 0, 2, 2),
      (2, 2, 0, 0), (1, 3, 3, 1)]
U3 = [(3, 2, 2, 3), (3, 3, 2, 2), (1, 1, 4, 4), (2, 4, 3, 1), (4, 2, 2, 4),
      (2, 1, 3, 4), (4, 0, 4, 8), (0, 4, 8, 4), (3, 3, 3, 3), (4, 1, 4, 7),
      (3, 1, 3, 5), (1, 3, 5, 3)]
GQ = [(2, 2), (1, 3), (3, 1), (3, 3), (2, 4), (4, 2), (0, 4), (4, 0),
      (4, 4), (2, 6), (5, 3)]
GT = [(3, 5), (5, 5), (4, 6), (6, 4), (1, 9)]

PROF = ['all', 'all', 'all', 't1', 't2', 'one', 'one2', 'big', 'tiny1',
        'tiny2', 'wide', 'closed', 'shared', 'only', 'without', 'integer',
        'ones', 'mixed1', 'mixed2']


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    q = tier == 'quick'
    out = []

    def add(form, dims, order, prof=None):
        p = PROF[int(rng.integers(len(PROF)))]
        out.append(dict(form=form, dims=list(dims), order=order,
                        prof=prof or p,
                        cplx=bool(rng.random() < 0.4),
                        lay=str(rng.choice(['c', 'mix', 'f'])),
                        seed=int(rng.integers(2**31))))
    for d in UQ:
        for o in (1, 2, 3, 4):
            for _ in range(6 if q else 40):
                add('u', d, o)
    for d in U3:
        for o in (1, 2, 3, 4):
            for _ in range(1 if q else 4):
                add('u', d, o)
    # every term of the highest order, with unequal spins
    for d in ((4, 0, 4, 8), (0, 4, 8, 4), (1, 4, 7, 4)):
        add('u', d, 4, 'all')
    for d in GQ:
        for o in (1, 2, 3, 4):
            for _ in range(6 if q else 40):
                add('g', d, o)
    for d in GT:
        for o in (1, 2, 3, 4):
            for _ in range(1 if q else 3):
                add('g', d, o)
    for o in (0, 5, -1, 6):
        out.append(dict(form='u', dims=[2, 2, 2, 2], order=o, bad=True,
                        seed=1))
        out.append(dict(form='g', dims=[2, 2], order=o, bad=True, seed=1))
    out.sort(key=lambda c: -np.prod([x + 1 for x in c['dims']])*c['order'])
    return out


def required(tier):
    return ["%sC:%s" % (f, k) for f in 'ug'
            for k in ('o1', 'o2', 'o3', 'o4', 'd', 'z')] + \
        ['unsupported order', 'reference coefficient']


def profile(rng, prof, singles, doubles):
    if prof == 't1':
        for d in doubles:
            d[...] = 0
    elif prof == 't2':
        for s in singles:
            s[...] = 0
    elif prof == 'one':
        for x in singles:
            k = np.zeros(x.size)
            if x.size:
                k[rng.integers(x.size)] = 1
            x *= k.reshape(x.shape)
    elif prof == 'one2':
        for x in singles + doubles:
            lib.single(rng, x)
    elif prof == 'big':
        for x in singles + doubles:
            x *= 10.0
    elif prof == 'tiny1':
        for x in singles:
            x *= 10.0**-rng.uniform(3, 8)
    elif prof == 'tiny2':
        for x in doubles:
            x *= 10.0**-rng.uniform(3, 8)
    elif prof == 'wide':
        for x in singles + doubles:
            lib.spread(rng, x)
    elif prof in ('closed', 'shared'):
        # the same amplitudes for both spins
        if len(singles) == 2 and singles[0].shape == singles[1].shape:
            ab = doubles[1]
            ab += ab.transpose(1, 0, 3, 2).copy()
            doubles[0][...] = ab - ab.transpose(0, 1, 3, 2)
            if prof == 'shared':
                singles[1], doubles[2] = singles[0], doubles[0]
            else:
                singles[1][...] = singles[0]
                doubles[2][...] = doubles[0]
    elif prof in ('only', 'without'):
        # one tensor alone, or all but one
        ts = singles + doubles
        k = int(rng.integers(len(ts)))
        for j, x in enumerate(ts):
            if (j == k) == (prof == 'without'):
                x[...] = 0
    elif prof == 'integer':
        for x in singles + doubles:
            x[...] = np.round(2*x.real)
        singles[:] = [x.real.astype(int) for x in singles]
        doubles[:] = [x.real.astype(int) for x in doubles]
    elif prof == 'ones':
        for x in singles:
            x[...] = 1.0
        for x in doubles:
            x[np.abs(x) > 0] = x[np.abs(x) > 0]/np.abs(x[np.abs(x) > 0])
    elif prof == 'mixed1':
        singles[:] = [x.real.copy() for x in singles]
        doubles[:] = [x + 1j*x.real for x in doubles]
    elif prof == 'mixed2':
        doubles[:] = [x.real.copy() for x in doubles]
        singles[:] = [x + 1j*x.real for x in singles]


def run_case(case, m):
    from cqcpy import ci_utils as cu
    rng = harness.rng_of(case['seed'], case['form'])
    dims, o = case['dims'], case['order']
    z = case.get('cplx', False)
    L = lambda x: lib.lay(rng, x, case.get('lay', 'c'))
    if case['form'] == 'u':
        w = spin.random_u(rng, spin.Dims(*dims), cplx=z)
        t1 = [w['t1a'], w['t1b']]
        t2 = [w['t2aa'], w['t2ab'], w['t2bb']]
        noa, nob, nva, nvb = dims
        n = noa + nva
        fn, args = getattr(cu, 'makeCfromT', None), (noa, nva, nob, nvb)
    else:
        no, nv = dims
        t1 = [gen.rnd(rng, (nv, no), 1.0, z)]
        t2 = [gen.antisym(gen.rnd(rng, (nv, nv, no, no), 1.0, z))]
        fn, args = getattr(cu, 'gmakeCfromT', None), (no, nv)
    profile(rng, case.get('prof', 'all'), t1, t2)
    if case.get('bad'):
        try:
            r = fn(*args, *t1, *t2, order=o)
            m.check('unsupported order', False,
                    "order %d returned %s" % (o, np.shape(r)),
                    regime='%s %d' % (case['form'], o))
        except Exception:
            m.check('unsupported order', True,
                    regime='%s %d' % (case['form'], o))
        return
    got = m.call(case['form'] + 'C', fn, *args, *[L(x) for x in t1],
                 *[L(x) for x in t2], order=o)
    if got is harness.FAILED:
        return
    if case['form'] == 'u':
        basis = [cu.ucis_basis, cu.ucisd_basis, cu.ucisdt_basis,
                 cu.ucisdtq_basis][o - 1](n, noa, nob)
        masks = [ci.mask_of(a.occ) | ci.mask_of(b.occ, n) for a, b in basis]
        oa, va = list(range(noa)), list(range(noa, n))
        ob, vb = [n + i for i in range(nob)], [n + i for i in range(nob, n)]
        ops = ci.t_ops(t1[0], t2[0], oa, va)
        ops = ci.t_ops(t1[1], t2[2], ob, vb, ops)
        ops = ci.tab_ops(t2[1], oa, va, ob, vb, ops)
        ref = ci.mask_of([1]*noa) | ci.mask_of([1]*nob, n)
    else:
        n = no + nv
        basis = [cu.gcis_basis, cu.gcisd_basis, cu.gcisdt_basis,
                 cu.gcisdtq_basis][o - 1](n, no)
        masks = [ci.mask_of(a.occ) for a in basis]
        nb = no//2
        na = no - nb
        ref = ci.mask_of([1]*na) | ci.mask_of([1]*nb, n//2)
        occ = [p for p in range(n) if (ref >> p) & 1]
        vir = [p for p in range(n) if not (ref >> p) & 1]
        ops = ci.t_ops(t1[0], t2[0], occ, vir)
    R, S = ci.exp_T(ref, ops, o)
    want = np.array([R.get(k, 0.0) for k in masks])
    reg = '%s o%d %s %s' % (dims, o, case['prof'], 'z' if z else 'd')
    cov = ('o%d' % o, 'z' if z else 'd')
    if not m.equal(case['form'] + 'C', got, want, tol=1e-12,
                   mag=max(S.values()), regime=reg, cover=cov):
        return
    # every coefficient on the scale of its own terms
    size = np.array([S.get(k, 0.0) for k in masks])
    off = np.abs(np.asarray(got) - want) - 1e-12*size
    k = int(np.argmax(off))
    m.check(case['form'] + 'C elementwise', off[k] <= 0,
            "coefficient %d is %r, expected %r (terms of size %.3g)"
            % (k, got[k], want[k], size[k]), regime=reg, cover=cov)
    m.check('reference coefficient', abs(got[0] - 1.0) == 0.0,
            "coefficient of the reference is %r" % got[0])
