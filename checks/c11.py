"""C11: block partition and denominator helpers."""
import itertools
import numpy as np
from mon import harness, lib, gen

ID = "C11"
RULE = ("tensors whose elements encode their own index, partitioned with "
        "random (unequal, also empty) occupied/virtual splits per index; "
        "each returned element is decoded.  Wrong split sizes must be "
        "rejected.  Denominators and block-diagonal matrices of random "
        "rectangular sizes are recomputed element by element; distinct = "
        "(function, dimensions, dtype, layout)")
ASSUMPTIONS = []


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    n = 6000 if tier == 'quick' else 30000
    out = [dict(o=[2, 1, 3, 2], v=[1, 3, 2, 4], layout='c', cplx=False,
                seed=int(rng.integers(2**31)))]
    for k in range(n):
        # now and then one long index; sometimes all indices alike
        o, v = rng.integers(0, 4, 4), rng.integers(0, 4, 4)
        if k % 5 == 1:
            j = int(rng.integers(4))
            o[j], v[j] = rng.integers(0, 6), rng.integers(0, 5)
        elif k % 5 == 2:
            o[:], v[:] = o[0], v[0]
        elif k % 5 == 3:
            o[2:], v[2:] = o[:2], v[:2]
        out.append(dict(o=[int(x) for x in o], v=[int(x) for x in v],
                        layout='mix', cplx=bool(rng.random() < 0.4),
                        seed=int(rng.integers(2**31))))
    return out


def required(tier):
    return ['make_two_e_blocks', 'make_two_e_blocks_full', 'block_diag', 'D1',
            'D2', 'D2u', 'rejects', 'one_e_blocks', 'two_e_blocks',
            'two_e_blocks_full']


BAD = ['one', 'one', 'moved', 'moved', 'exchanged', 'rotated', 'all',
       'random', 'first pair', 'last pair', 'doubled']


def mismatch(rng, d, how):
    """A split that (usually) does not fit the tensor any more."""
    def r(k):
        return int(rng.integers(k))
    if how == 'one':
        d[r(8)] += int(rng.choice([-2, -1, 1, 2, 5]))
    elif how == 'moved':
        # one orbital too many here, one too few there
        j, k = rng.permutation(8)[:2]
        d[j] += 1
        d[k] -= 1
    elif how in ('exchanged', 'first pair', 'last pair'):
        j, k = {'first pair': (0, 1), 'last pair': (2, 3)}.get(
            how, tuple(rng.permutation(4)[:2]))
        d[2*j:2*j + 2], d[2*k:2*k + 2] = d[2*k:2*k + 2], d[2*j:2*j + 2]
    elif how == 'rotated':
        d = d[2:] + d[:2]
    elif how == 'all':
        d = [x + 1 for x in d]
    elif how == 'random':
        d = [int(x) for x in rng.integers(0, 5, 8)]
    elif how == 'doubled':
        d = [2*x for x in d]
    return d


PAIRS = [((1, 0, 3, 2), 1), ((1, 0, 2, 3), -1), ((0, 1, 3, 2), -1),
         ((2, 3, 0, 1), 1), ((3, 2, 1, 0), 1), ((0, 2, 1, 3), 1)]


def related(rng, shape, z):
    """Tensor with (nearly) an index symmetry, or of tiny elements."""
    x = gen.rnd(rng, shape, 1.0, z)
    for k in rng.permutation(len(PAIRS))[:int(rng.integers(0, 3))]:
        p, s = PAIRS[k]
        if tuple(shape[j] for j in p) == shape:
            x = x + s*x.transpose(p)
    if rng.random() < 0.7:
        x = x + 10.0**-rng.uniform(3, 14)*gen.rnd(rng, shape, 1.0, z)
    if rng.random() < 0.3:
        x = x*10.0**-rng.uniform(0, 20)
    return x


def number(rng, shape, kind):
    """Integer, real or complex array."""
    if kind == 'i':
        return rng.integers(-9, 10, shape)
    return gen.rnd(rng, shape, 1.0, kind == 'z')


def run_case(case, m):
    from cqcpy import ov_blocks as ob, utils
    rng = harness.rng_of(case['seed'])
    o, v, z = case['o'], case['v'], case['cplx']
    shape = tuple(p + q for p, q in zip(o, v))
    code = np.zeros(shape, dtype=complex if z else float)
    for idx in itertools.product(*[range(s) for s in shape]):
        code[idx] = 1 + idx[0] + 10*idx[1] + 100*idx[2] + 1000*idx[3] \
            + (0.5j if z else 0)
    u = rng.random()
    if u < 0.3:
        # related and nearly related elements instead of numbered ones
        code = related(rng, shape, z)
    dims = [x for pq in zip(o, v) for x in pq]
    reg = "%s %s" % ('.'.join(map(str, dims)), 'z' if z else 'd')
    x = lib.lay(rng, code, case['layout'])
    for name, names in (('make_two_e_blocks', lib.N9),
                        ('make_two_e_blocks_full', lib.N16)):
        B = m.call(name, getattr(ob, name, None), x, *dims)
        if B is harness.FAILED:
            continue
        want = []
        for k in names:
            w = np.zeros(tuple((o if c == 'o' else v)[j]
                               for j, c in enumerate(k)), dtype=code.dtype)
            off = [0 if c == 'o' else o[j] for j, c in enumerate(k)]
            for idx in itertools.product(*[range(s) for s in w.shape]):
                w[idx] = code[tuple(p + q for p, q in zip(idx, off))]
            want.append(w)
        m.equal(name, [getattr(B, k) for k in names], want, tol=0.0,
                regime=reg)
        # a split that does not match the tensor must be rejected
        for how in BAD:
            bad = mismatch(rng, list(dims), how)
            if min(bad) < 0 or all(bad[2*j] + bad[2*j + 1] == shape[j]
                                   for j in range(4)):
                continue
            try:
                getattr(ob, name)(x, *bad)
                ok = False
            except Exception:
                ok = True
            m.calls[name] += 1
            off = [j for j in range(4)
                   if bad[2*j] + bad[2*j + 1] != shape[j]]
            m.check('rejects', ok, "%s accepted split %s for shape %s"
                    % (name, bad, shape),
                    regime="%s %s axes %s" % (name, how, off))
    # containers return what was put in
    one = [gen.rnd(rng, (k + 1, k + 2)) for k in range(4)]
    B = m.call('one_e_blocks', getattr(ob, 'one_e_blocks', None), *one)
    if B is not harness.FAILED:
        m.equal('one_e_blocks', [B.oo, B.ov, B.vo, B.vv], one, tol=0.0)
    for name, names in (('two_e_blocks', lib.N9),
                        ('two_e_blocks_full', lib.N16)):
        vals = {k: gen.rnd(rng, (2, 1)) for k in names}
        B = m.call(name, getattr(ob, name, None), **vals)
        if B is not harness.FAILED:
            m.equal(name, [getattr(B, k) for k in names],
                    [vals[k] for k in names], tol=0.0)
        keep = names[int(rng.integers(len(names)))]
        B = m.call(name, getattr(ob, name, None), **{keep: vals[keep]})
        if B is not harness.FAILED:
            left = [k for k in names if k != keep
                    and getattr(B, k, None) is not None]
            m.check(name + ' absent', not left,
                    "blocks not given are present: %s" % left, regime=keep)
    # denominators
    n = [int(q) for q in rng.integers(0, 5, 4)]
    if rng.random() < 0.1:
        n[int(rng.integers(4))] = int(rng.integers(5, 25))
    if rng.random() < 0.3:
        n = [n[0], n[0], n[1], n[1]]
    t = 'z' if z else 'd' if rng.random() < 0.7 else 'i'
    e = [lib.lay(rng, number(rng, (q,), t), case['layout']) for q in n]
    if rng.random() < 0.2:
        # nearly degenerate levels of large magnitude
        e = [x*0.001 + 1000.0 for x in e]
    reg = '.'.join(map(str, n)) + ' ' + t
    big = max(4.0, lib.mag(*e))

    def tab(fun, sh):
        w = np.zeros(sh, dtype=complex if z else float)
        for idx in itertools.product(*[range(s) for s in sh]):
            w[idx] = fun(*idx)
        return w
    got = m.call('D1', getattr(utils, 'D1', None), e[0], e[1])
    m.equal('D1', got, tab(lambda a, i: e[0][a] - e[1][i], (n[0], n[1])),
            tol=1e-14, mag=big, regime=reg)
    got = m.call('D2', getattr(utils, 'D2', None), e[0], e[1])
    m.equal('D2', got, tab(lambda a, b, i, j: e[0][a] + e[0][b] - e[1][i]
                           - e[1][j], (n[0], n[0], n[1], n[1])),
            tol=1e-14, mag=big, regime=reg)
    got = m.call('D2u', getattr(utils, 'D2u', None), *e)
    m.equal('D2u', got, tab(lambda a, b, i, j: e[0][a] + e[1][b] - e[2][i]
                            - e[3][j], tuple(n)),
            tol=1e-14, mag=big, regime=reg)
    # the same array object for both spins
    got = m.call('D2u', getattr(utils, 'D2u', None), e[0], e[0], e[2], e[2])
    m.equal('D2u', got, tab(lambda a, b, i, j: e[0][a] + e[0][b] - e[2][i]
                            - e[2][j], (n[0], n[0], n[2], n[2])),
            tol=1e-14, mag=big, regime=reg + ' shared')
    # related energies of both spins
    f = [e[0], lib.kin(rng, e[0]), e[2], lib.kin(rng, e[2])]
    if rng.random() < 0.3:
        f[1] = e[1]
    got = m.call('D2u', getattr(utils, 'D2u', None), *f)
    m.equal('D2u', got, tab(lambda a, b, i, j: f[0][a] + f[1][b] - f[2][i]
                            - f[3][j], tuple(x.size for x in f)),
            tol=1e-14, mag=big, regime=reg + ' related')
    got = m.call('D1', getattr(utils, 'D1', None), f[0], f[1])
    m.equal('D1', got, tab(lambda a, i: f[0][a] - f[1][i],
                           tuple(x.size for x in f[:2])),
            tol=1e-14, mag=big, regime=reg + ' related')
    # block diagonal, also of matrices of different types
    ta, tb = ('idz'[int(rng.integers(3))] for _ in 'ab')
    A, B = number(rng, (n[0], n[1]), ta), number(rng, (n[2], n[3]), tb)
    if rng.random() < 0.2:
        B, n = lib.kin(rng, A), n[:2]*2
    W = np.zeros((n[0] + n[2], n[1] + n[3]), dtype=np.result_type(A, B))
    for i in range(n[0]):
        for j in range(n[1]):
            W[i, j] = A[i, j]
    for i in range(n[2]):
        for j in range(n[3]):
            W[n[0] + i, n[1] + j] = B[i, j]
    got = m.call('block_diag', getattr(utils, 'block_diag', None),
                 lib.lay(rng, A, case['layout']),
                 lib.lay(rng, B, case['layout']))
    m.equal('block_diag', got, W, tol=0.0, regime='%s %s%s'
            % ('.'.join(map(str, n)), ta, tb))
