"""C15: CI matrix elements and H-on-vector."""
import itertools
import numpy as np
from mon import harness, lib, gen, ci

ID = "C15"
RULE = ("pairs of determinants (complete small spaces and random pairs with "
        "0 to 3 excitations in spaces of up to 20 orbitals per spin) x "
        "integrals without Hermiticity x real/complex x constant; elements "
        "compared with <bra|H|ket> from operator strings; H-on-vector on "
        "complete, permuted and truncated bases; distinct = (function, "
        "excitation pattern, sizes, dtype)")
ASSUMPTIONS = ["same-spin integrals have particle-exchange symmetry; the "
               "alpha-beta block has none"]


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    k = 20 if tier == 'quick' else 60

    def sd():
        return int(rng.integers(2**31))
    out = []
    for _ in range(2*k):
        for n, e in [(3, 1), (4, 2), (5, 3), (5, 2), (6, 3), (4, 0), (4, 4),
                     (6, 4), (1, 1), (2, 1)]:
            out.append(dict(kind='gfull', n=n, e=e, cplx=bool(
                rng.random() < 0.4), seed=sd()))
        for na, nb, ea, eb in [(3, 3, 1, 2), (4, 3, 2, 1), (3, 4, 2, 2),
                               (4, 4, 2, 2), (3, 2, 3, 1), (2, 4, 0, 2),
                               (4, 2, 2, 0), (1, 1, 1, 1), (5, 3, 3, 2),
                               (2, 5, 1, 3)]:
            out.append(dict(kind='ufull', n=[na, nb], e=[ea, eb],
                            cplx=bool(rng.random() < 0.4), seed=sd()))
    for _ in range(40*k):
        out.append(dict(kind='gpair', n=int(rng.integers(4, 14)), m=60,
                        cplx=bool(rng.random() < 0.4), seed=sd()))
        out.append(dict(kind='upair', n=[int(x) for x in
                                         rng.integers(2, 10, 2)], m=60,
                        cplx=bool(rng.random() < 0.4), seed=sd()))
    for _ in range(2*k):
        out.append(dict(kind='gpair', n=20, m=40, cplx=False, seed=sd()))
        out.append(dict(kind='upair', n=[18, 20], m=40, cplx=False,
                        seed=sd()))
    for _ in range(24*k):
        out.append(dict(kind='gvec', n=int(rng.integers(2, 7)),
                        cplx=bool(rng.random() < 0.4), seed=sd()))
        out.append(dict(kind='uvec', n=[int(x) for x in
                                        rng.integers(1, 5, 2)],
                        cplx=bool(rng.random() < 0.4), seed=sd()))
    out.sort(key=lambda c: 0 if 'vec' in c['kind'] else 1)
    return out


def required(tier):
    out = ["gci_matrixel:%d" % k for k in (0, 1, 2)]
    out += ["ci_matrixel:%d%d" % p for p in ((0, 0), (1, 0), (0, 1), (2, 0),
                                             (0, 2), (1, 1))]
    out += ["far elements vanish", "different particle numbers:g",
            "different particle numbers:u"]
    for f in ('gci_matrixel', 'ci_matrixel', 'gH_on_vec', 'H_on_vec'):
        out += [f + ':z', f + ':d']
    return out


def sy(x):
    return x + x.transpose(1, 0, 3, 2)


def strs(cu, mask, n, off=0):
    return cu.Dstring(n, ci.occ_of(mask, n, off))


def gdata(rng, n, z):
    h = gen.rnd(rng, (n, n), 1.0, z)
    I = sy(gen.rnd(rng, (n,)*4, 1.0, z))
    return h, I


def udata(rng, na, nb, z):
    return (gen.rnd(rng, (na, na), 1.0, z), gen.rnd(rng, (nb, nb), 1.0, z),
            sy(gen.rnd(rng, (na,)*4, 1.0, z)),
            sy(gen.rnd(rng, (nb,)*4, 1.0, z)),
            gen.rnd(rng, (na, nb, na, nb), 1.0, z))


def rand_exc(rng, mask, n, k, off=0):
    occ = [p for p in range(off, off + n) if (mask >> p) & 1]
    vir = [p for p in range(off, off + n) if not (mask >> p) & 1]
    if k > min(len(occ), len(vir)):
        return mask, 0
    for p in rng.choice(len(occ), k, replace=False):
        mask &= ~(1 << occ[p])
    for p in rng.choice(len(vir), k, replace=False):
        mask |= 1 << vir[p]
    return mask, k


def run_case(case, m):
    from cqcpy import ci_utils as cu
    rng = harness.rng_of(case['seed'], case['kind'])
    kind, n, z = case['kind'], case['n'], case['cplx']
    zc = 'z' if z else 'd'
    G = getattr(cu, 'gci_matrixel', None)
    U = getattr(cu, 'ci_matrixel', None)
    lo = ['c', 'mix'][int(rng.integers(2))]
    L = lambda x: lib.lay(rng, x, lo)
    # integrals of ordinary, very small and large size
    s = 1.0 if rng.random() < 0.8 else 10.0**rng.uniform(-12, 4)
    const = s*float(rng.choice([0.0, 1.7, -30.5]))

    def gel(bra, ket, h, I, v, hL, IL):
        d = ci.pop(bra ^ ket)//2
        want = ci.element(bra, ket, h, v) + (const if bra == ket else 0.0)
        got = m.call('gci_matrixel', G, strs(cu, bra, n), strs(cu, ket, n),
                     hL, IL, const)
        if ci.pop(bra) != ci.pop(ket):
            if got is not harness.FAILED:
                m.check('different particle numbers', abs(got) == 0.0,
                        "%d and %d particles give %r"
                        % (ci.pop(bra), ci.pop(ket), got), cover=('g',),
                        regime='g d%d' % ci.pop(bra ^ ket))
        elif d <= 2:
            m.equal('gci_matrixel', got, want, tol=1e-12,
                    mag=s*(10.0 + ci.pop(ket)**2),
                    regime='n%d ne%d d%d %s' % (n, ci.pop(ket), d, zc),
                    cover=(str(d), zc))
        elif got is not harness.FAILED:
            m.check('far elements vanish', abs(got) == 0.0,
                    "%d-fold difference gives %r" % (d, got),
                    regime='g d%d' % d)

    def uel(bra, ket, data, h, v, na, nb, dataL):
        lowm = (1 << na) - 1
        da, db = ci.pop((bra ^ ket) & lowm)//2, ci.pop((bra ^ ket) >> na)//2
        want = ci.element(bra, ket, h, v) + (const if bra == ket else 0.0)
        got = m.call('ci_matrixel', U, strs(cu, bra, na),
                     strs(cu, bra, nb, na), strs(cu, ket, na),
                     strs(cu, ket, nb, na), *dataL, const)
        if ci.pop(bra & lowm) != ci.pop(ket & lowm) or \
                ci.pop(bra) != ci.pop(ket):
            if got is not harness.FAILED:
                m.check('different particle numbers', abs(got) == 0.0,
                        "unequal particle numbers give %r" % got,
                        regime='u d%d%d' % (ci.pop((bra ^ ket) & lowm),
                                            ci.pop((bra ^ ket) >> na)),
                        cover=('u',))
        elif da + db <= 2:
            m.equal('ci_matrixel', got, want, tol=1e-12,
                    mag=s*(10.0 + ci.pop(ket)**2),
                    regime='n%d.%d ne%d.%d d%d%d %s'
                    % (na, nb, ci.pop(ket & lowm), ci.pop(ket >> na), da, db,
                       zc), cover=('%d%d' % (da, db), zc))
        elif got is not harness.FAILED:
            m.check('far elements vanish', abs(got) == 0.0,
                    "%d+%d-fold difference gives %r" % (da, db, got),
                    regime='u d%d%d' % (da, db))
    if kind in ('gfull', 'gpair', 'gvec'):
        h, I = gdata(rng, n, z)
        v = I - I.transpose(0, 1, 3, 2)
        h, I, v = s*h, s*I, s*v
        hL, IL = L(h), L(I)
    else:
        na, nb = n
        data = udata(rng, na, nb, z)
        data = [s*x for x in data]
        h, v = ci.spin_blocks(*data)
        dataL = [L(x) for x in data]
    if kind == 'gfull':
        masks = [ci.mask_of(o) for o in itertools.product((0, 1), repeat=n)
                 if sum(o) == case['e']]
        for bra in masks:
            for ket in masks:
                gel(bra, ket, h, I, v, hL, IL)
    elif kind == 'ufull':
        ea, eb = case['e']
        masks = [ci.mask_of(oa) | ci.mask_of(ob, na)
                 for oa in itertools.product((0, 1), repeat=na)
                 if sum(oa) == ea
                 for ob in itertools.product((0, 1), repeat=nb)
                 if sum(ob) == eb]
        for bra in masks:
            for ket in masks:
                uel(bra, ket, data, h, v, na, nb, dataL)
    elif kind == 'gpair':
        for _ in range(case['m']):
            ket = ci.mask_of([int(x) for x in rng.integers(0, 2, n)])
            bra, k = rand_exc(rng, ket, n, int(rng.integers(0, 4)))
            gel(bra, ket, h, I, v, hL, IL)
        for _ in range(case['m']//4):
            ket = ci.mask_of([int(x) for x in rng.integers(0, 2, n)])
            bra = ket
            for p in rng.choice(n, min(n, int(rng.integers(1, 4))),
                                replace=False):
                bra ^= 1 << int(p)
            gel(bra, ket, h, I, v, hL, IL)
    elif kind == 'upair':
        for _ in range(case['m']):
            ket = ci.mask_of([int(x) for x in rng.integers(0, 2, na + nb)])
            bra, k = rand_exc(rng, ket, na, int(rng.integers(0, 3)))
            bra, k = rand_exc(rng, bra, nb, int(rng.integers(0, 3)), na)
            uel(bra, ket, data, h, v, na, nb, dataL)
        for _ in range(case['m']//4):
            ket = ci.mask_of([int(x) for x in rng.integers(0, 2, na + nb)])
            bra = ket
            for p in rng.choice(na + nb, min(na + nb,
                                             int(rng.integers(1, 5))),
                                replace=False):
                bra ^= 1 << int(p)
            uel(bra, ket, data, h, v, na, nb, dataL)
    else:
        if kind == 'gvec':
            masks = [ci.mask_of(o) for o in
                     itertools.product((0, 1), repeat=n)
                     if sum(o) == int(case['seed'] % (n + 1))]
        else:
            ea, eb = case['seed'] % (na + 1), (case['seed']//7) % (nb + 1)
            masks = [ci.mask_of(oa) | ci.mask_of(ob, na)
                     for oa in itertools.product((0, 1), repeat=na)
                     if sum(oa) == ea
                     for ob in itertools.product((0, 1), repeat=nb)
                     if sum(ob) == eb]
        how = ['full', 'permuted', 'truncated', 'mixed'][
            int(rng.integers(4))]
        if how == 'mixed':      # several particle numbers in one basis
            masks = list(range(2**(n if kind == 'gvec' else na + nb)))
        if how != 'full':
            masks = [masks[k] for k in rng.permutation(len(masks))]
        if how == 'truncated':
            masks = masks[:max(1, len(masks)//2)]
        masks = masks[:40]
        H = np.array([[ci.element(b, k, h, v) for k in masks]
                      for b in masks])
        vz = z and rng.random() < 0.8 or rng.random() < 0.2
        vec = gen.rnd(rng, (len(masks),), 1.0, vz)
        u = rng.random()
        if u < 0.25:
            # coefficients of very different size
            vec *= 10.0**-rng.uniform(0, 10, len(masks))
        elif u < 0.35:
            vec *= rng.random(len(masks)) < 0.3
        vL = lib.lay(rng, vec, ['c', 'stride', 'neg'][int(rng.integers(3))])
        zc = 'z' if (z or vz) else 'd'
        if kind == 'gvec':
            basis = [strs(cu, x, n) for x in masks]
            got = m.call('gH_on_vec', getattr(cu, 'gH_on_vec', None), basis,
                         vL, hL, IL)
            what = 'gH_on_vec'
        else:
            basis = [(strs(cu, x, na), strs(cu, x, nb, na)) for x in masks]
            got = m.call('H_on_vec', getattr(cu, 'H_on_vec', None), basis,
                         vL, *dataL)
            what = 'H_on_vec'
        ok = m.equal(what, got, H @ vec, tol=1e-12, mag=10.0*s,
                     regime='%s dim%d %s' % (how, len(masks), zc),
                     cover=(zc,))
        if ok:
            # every coefficient on the scale of its own terms
            size = (np.abs(H) + s*(H != 0)*10) @ np.abs(vec)
            off = np.abs(np.asarray(got) - H @ vec) - 1e-12*size
            k = int(np.argmax(off)) if len(off) else 0
            m.check(what + ' elementwise', not len(off) or off[k] <= 0,
                    "coefficient %d is %r, expected %r"
                    % (k, got[k] if len(off) else 0, (H @ vec)[k]
                       if len(off) else 0), regime=how)
