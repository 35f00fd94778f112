"""C21: random tensor factories."""
import numpy as np
from mon import harness, lib

ID = "C21"
RULE = ("all factories x dimensions (unequal, one, zero) x global seeds; "
        "shapes, exact symmetries, orbit counting of distinct values "
        "(genericity), block consistency, freshness of successive calls and "
        "reproducibility after reseeding; distinct = (factory, property, "
        "dimensions)")
ASSUMPTIONS = ["two independent double-precision draws coincide with "
               "negligible probability"]
A12 = ((1, 0, 2, 3), -1)
A34 = ((0, 1, 3, 2), -1)
PX = ((1, 0, 3, 2), 1)
BK = ((2, 3, 0, 1), 1)
SY = ((1, 0), 1)
GRID = ['F', 'I', 'I_anti', 'Itot', 'Ifull', 'Ifull_gen', 'integrals', 'T',
        'T1_spatial', 'T2_spatial', 'L', 'ft_integrals', 'ft_T',
        'ft_T1_spatial', 'ft_T2_spatial', 'ft_D', 'ft_D1', 'ft_D2']


def shift(sym):
    """The same symmetry with a leading grid index."""
    p, s = sym
    return ((0,) + tuple(x + 1 for x in p), s)


def block_syms(name, anti):
    out = []
    if anti:
        if name[0] == name[1]:
            out.append(A12)
        if name[2] == name[3]:
            out.append(A34)
    elif name[0] == name[1] and name[2] == name[3]:
        out.append(PX)
    return out


def spec(name, d):
    """(arguments, list of (label, shape, symmetries))."""
    no, nv, no2, nv2, n3, n4, n5, n6 = d
    dim = dict(o=no, v=nv)
    four = [(1, 2), (3, 4)]
    F = [('oo', (no, no), [SY]), ('ov', (no, nv), []), ('vo', (nv, no), []),
         ('vv', (nv, nv), [SY])]
    if name == 'F':
        return (no, nv), F
    if name in ('I', 'I_anti'):
        return (no, nv), [(b, tuple(dim[c] for c in b),
                           block_syms(b, name == 'I_anti'))
                          for b in lib.N9]
    if name == 'integrals':
        return (no, nv), F + [(b, tuple(dim[c] for c in b),
                               block_syms(b, True)) for b in lib.N9]
    if name == 'Itot':
        return (no,), [('', (no,)*4, [PX, BK])]
    if name == 'Ifull':
        return (no, nv), [(b, tuple(dim[c] for c in b), block_syms(b, True))
                          for b in lib.N16]
    if name == 'Ifull_gen':
        ds = [dict(o=d[2*k], v=d[2*k + 1]) for k in range(4)]
        return tuple(d), [(b, tuple(ds[k][c] for k, c in enumerate(b)), [])
                          for b in lib.N16]
    if name == 'T':
        return (no, nv), [('0', (nv, no), []),
                          ('1', (nv, nv, no, no), [A12, A34])]
    if name == 'L':
        return (no, nv), [('0', (no, nv), []),
                          ('1', (no, no, nv, nv), [A12, A34])]
    if name == 'T1_spatial':
        return (no, nv, no2, nv2), [('0', (nv, no), []),
                                    ('1', (nv2, no2), [])]
    if name == 'T2_spatial':
        return (no, nv, no2, nv2), [('0', (nv, nv, no, no), [A12, A34]),
                                    ('1', (nv, nv2, no, no2), []),
                                    ('2', (nv2, nv2, no2, no2), [A12, A34])]
    if name == 'ft_integrals':
        return (no,), [('0', (no, no), [SY]), ('1', (no,)*4, [A12, A34])]
    if name == 'ft_T':
        return (nv, no), [('0', (nv, no, no), []),
                          ('1', (nv,) + (no,)*4, [shift(A12), shift(A34)])]
    if name == 'ft_T1_spatial':
        return (nv, no, no2), [('0', (nv, no, no), []),
                               ('1', (nv, no2, no2), [])]
    if name == 'ft_T2_spatial':
        return (nv, no, no2), [
            ('0', (nv,) + (no,)*4, [shift(A12), shift(A34)]),
            ('1', (nv, no, no2, no, no2), []),
            ('2', (nv,) + (no2,)*4, [shift(A12), shift(A34)])]
    if name == 'ft_D':
        return (no,), [('0', (no, no), [((1, 0), -1)]),
                       ('1', (no,)*4, [PX, ((2, 3, 0, 1), -1),
                                       ((1, 0, 2, 3), 1)])]
    if name == 'ft_D1':
        return (no,), [('', (no, no), [((1, 0), -1)])]
    if name == 'ft_D2':
        return (no, no2), [('', (no, no2, no, no2), [((2, 3, 0, 1), -1)])]
    raise ValueError(name)


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    out = []
    for rep in range(500 if tier == 'quick' else 2000):
        for name in GRID:
            lo = 0 if rng.random() < 0.15 else 1
            hi = 6 if name.startswith('ft') else 7
            d = [int(x) for x in rng.integers(lo, hi, 8)]
            if rep % 3 == 1:            # equal alpha and beta dimensions
                d = [d[0], d[1], d[0], d[1], d[4], d[5], d[4], d[5]]
            elif rep % 12 == 3:         # everything alike
                d = [d[0]]*8
            elif rep % 12 == 6:         # one long dimension
                d[int(rng.integers(4))] = 9
            if name == 'Ifull_gen':
                d = [min(x, 4) for x in d]
            out.append(dict(name=name, d=d, seed=int(rng.integers(2**31))))
    # larger tensors
    for rep in range(3 if tier == 'quick' else 12):
        for name in GRID:
            d = [int(x) for x in rng.integers(8, 13, 8)]
            if name == 'Ifull_gen':
                d = [int(x) for x in rng.integers(4, 7, 8)]
            elif name in ('Ifull', 'Itot'):
                d = [int(x) for x in rng.integers(6, 9, 8)]
            out.append(dict(name=name, d=d, seed=int(rng.integers(2**31))))
    return out


def required(tier):
    out = []
    for g in GRID:
        out += [g + ' shape', g + ' symmetry', g + ' reproducible',
                g + ' fresh', g + ' generic']
    for g in ('T1_spatial', 'ft_T1_spatial', 'Ifull_gen'):
        out.remove(g + ' symmetry')
    return out + ['F blocks', 'integrals blocks', 'Ifull blocks',
                  'ft_D blocks', 'ft_D2 blocks']


def parts(r, labels):
    """Arrays named by the labels."""
    if len(labels) == 1 and labels[0] == '':
        return {'': np.asarray(r)}
    if labels[0].isdigit():
        if len(r) != len(labels):
            raise ValueError("%d results instead of %d" % (len(r),
                                                           len(labels)))
        return {k: np.asarray(x) for k, x in zip(labels, r)}
    if isinstance(r, tuple):
        out = {}
        for k in labels:
            out[k] = np.asarray(getattr(r[0] if len(k) == 2 else r[1], k))
        return out
    return {k: np.asarray(getattr(r, k)) for k in labels}


def orbits(shape, syms):
    """(number of orbits, mask of representatives) with sign-forced zeros
    excluded."""
    N = int(np.prod(shape))
    idx = np.arange(N).reshape(shape)
    can, sgn = idx.copy(), np.ones(shape, dtype=int)
    zero = np.zeros(shape, dtype=bool)
    for _ in range(4):
        for p, s in syms:
            c2, s2 = can.transpose(p), sgn.transpose(p)*s
            z = (c2 == can) & (s2 != sgn)
            zero |= z | zero.transpose(p)
            better = c2 < can
            can = np.where(better, c2, can)
            sgn = np.where(better, s2, sgn)
    rep = (can == idx) & ~zero
    return rep


def run_case(case, m):
    from cqcpy import test_utils as tu
    name = case['name']
    args, lay = spec(name, case['d'])
    fn = getattr(tu, 'make_random_' + name, None)
    labels = [x[0] for x in lay]
    reg = 'x'.join(map(str, args))
    state = np.random.get_state()
    np.random.seed(case['seed'] % 2**32)
    r1 = m.call(name, fn, *args)
    r2 = m.call(name, fn, *args)
    np.random.seed(case['seed'] % 2**32)
    r3 = m.call(name, fn, *args)
    r4 = m.call(name, fn, *args)
    np.random.seed((case['seed'] + 1) % 2**32)
    r5 = m.call(name, fn, *args)
    np.random.set_state(state)
    if any(r is harness.FAILED for r in (r1, r2, r3, r4, r5)):
        return
    try:
        P = [parts(r, labels) for r in (r1, r2, r3, r4, r5)]
    except Exception as e:
        m.check(name + ' shape', False, "result has another form: %r" % e)
        return
    ok = True
    for k, shape, syms in lay:
        ok &= m.check(name + ' shape', P[0][k].shape == shape and
                      P[0][k].dtype.kind == 'f' and
                      bool(np.all(np.isfinite(P[0][k]))),
                      "%s%s %s: shape %s type %s, expected %s" % (
                          name, args, k, P[0][k].shape, P[0][k].dtype,
                          shape), regime=reg)
    if not ok:
        return
    for a, b in ((0, 2), (1, 3)):
        same = all(np.array_equal(P[a][k], P[b][k]) for k in labels)
        m.check(name + ' reproducible', same,
                "%s%s differs after reseeding" % (name, args), regime=reg)
    vals = []
    for k, shape, syms in lay:
        x = P[0][k]
        if x.size == 0:
            continue
        for p, s in syms:
            scale = 0.0 if not name.startswith('ft_D') else 1e-15
            d = np.abs(x - s*x.transpose(p)).max()
            m.check(name + ' symmetry', d <= scale*4,
                    "%s%s block %s: symmetry %s%+d broken by %g" % (
                        name, args, k, p, s, d), regime=reg + ' ' + k)
        if name.startswith('ft_D'):
            continue
        rep = orbits(shape, syms)
        v = np.abs(x[rep])
        if v.size:
            m.check(name + ' generic', bool(np.all(v > 0)) and
                    len(np.unique(v)) == v.size,
                    "%s%s block %s: %d of %d independent elements are "
                    "distinct and nonzero" % (
                        name, args, k, len(np.unique(v[v > 0])), v.size),
                    regime=reg + ' ' + k)
            for q in (1, 4):
                m.check(name + ' fresh', not np.any(
                    P[q][k][rep] == x[rep]),
                    "%s%s block %s repeats values" % (name, args, k),
                    regime=reg + ' ' + k)
            vals.append((k, v))
    # different tensors must not share values (except F.ov/F.vo and the
    # blocks related by exchange)
    if name in ('F', 'integrals') and P[0]['ov'].size:
        m.check(name + ' blocks', np.array_equal(P[0]['vo'],
                                                 P[0]['ov'].T),
                "vo block is not the transpose of ov", regime=reg)
    if name == 'Ifull' and sum(args):
        full = np.zeros((sum(args),)*4)
        for b in lib.N16:
            lib.cut(full, [args[0]]*4, b)[...] = P[0][b]
        d = max(np.abs(full + full.transpose(1, 0, 2, 3)).max(),
                np.abs(full + full.transpose(0, 1, 3, 2)).max())
        m.check(name + ' blocks', d == 0, "the sixteen blocks are not parts "
                "of one antisymmetric tensor (%g)" % d, regime=reg,
                nontrivial=bool(full.any()))
    elif name not in ('ft_D', 'ft_D1', 'ft_D2'):
        keep = [v for k, v in vals if k != 'vo']
        if len(keep) > 1:
            allv = np.concatenate(keep)
            m.check(name + ' generic', len(np.unique(allv)) == allv.size,
                    "%s%s: blocks share values" % (name, args), regime=reg)
    if name in ('ft_D', 'ft_D1'):
        D = P[0][labels[0]]
        n = args[0]
        if n > 1:
            # differences of generic levels
            off = D[~np.eye(n, dtype=bool)]
            m.check(name + ' generic', bool(np.all(off != 0)),
                    "vanishing level difference", regime=reg)
            m.check(name + ' fresh', not np.any(
                off == P[1][labels[0]][~np.eye(n, dtype=bool)]),
                "repeats values", regime=reg)
            d = max(np.abs(D[i, j] + D[j, k] - D[i, k]) for i in range(n)
                    for j in range(n) for k in range(n))
            m.check('ft_D blocks', d < 1e-14, "not level differences",
                    regime=reg)
        if name == 'ft_D' and n > 0:
            D2 = P[0]['1']
            d = np.abs(D2 - D[:, None, :, None] - D[None, :, None, :]).max()
            m.check('ft_D blocks', d < 1e-14, "doubles denominators are not "
                    "sums of singles denominators (%g)" % d, regime=reg,
                    nontrivial=n > 1)
            d = np.abs(D2 - D2.transpose(0, 1, 3, 2)).max()
            m.check('ft_D symmetry', d < 1e-14, "ft_D pair symmetry")
    if name == 'ft_D2' and min(args) > 0:
        D = P[0]['']
        # D = A[a,i] + B[b,j] with A, B differences
        A, B = D[:, 0, :, 0], D[0, :, 0, :]
        d = np.abs(D - A[:, None, :, None] - B[None, :, None, :]).max()
        m.check('ft_D2 blocks', d < 1e-14, "not a sum of level differences",
                regime=reg, nontrivial=max(args) > 1)
        if max(args) > 1:
            off = [X[~np.eye(len(X), dtype=bool)] for X in (A, B)]
            m.check('ft_D2 generic', all(bool(np.all(x != 0)) for x in off)
                    and not (A.shape == B.shape and np.abs(A - B).max()
                             < 1e-12),
                    "degenerate or equal levels", regime=reg)
            if min(args) > 1:
                u = np.abs(off[0])[:, None] - np.abs(off[1])[None, :]
                m.check('ft_D2 generic', np.abs(u).min() > 1e-13,
                        "both sets of levels share a spacing", regime=reg)
            m.check('ft_D2 fresh', not np.array_equal(D, P[1]['']),
                    "repeats values", regime=reg)
