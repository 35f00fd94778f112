"""Workload helpers: block objects, memory layouts, data profiles."""
import itertools
import numpy as np
from . import gen

N9 = ['vvvv', 'vvvo', 'vovv', 'vvoo', 'vovo', 'oovv', 'vooo', 'ooov', 'oooo']
N16 = [''.join(x) for x in itertools.product('ov', repeat=4)]

LAYOUTS = ['c', 'c', 'f', 'stride', 'neg', 'view', 'perm']


def lay(rng, x, mode):
    """A writable array equal to x with another memory layout."""
    x = np.asarray(x)
    if mode == 'mix':
        mode = LAYOUTS[int(rng.integers(len(LAYOUTS)))]
    if x.ndim == 0 or mode == 'c':
        return x.copy(order='C')
    if mode == 'f':
        return np.asfortranarray(x.copy())
    if mode == 'stride':
        big = np.full(tuple(2*s + 1 for s in x.shape), 7.7e7, dtype=x.dtype)
        y = big[tuple(slice(1, 2*s + 1, 2) for s in x.shape)]
        y[...] = x
        return y
    if mode == 'neg':
        ax = int(rng.integers(x.ndim))
        idx = tuple(slice(None, None, -1) if k == ax else slice(None)
                    for k in range(x.ndim))
        big = np.array(x[idx], order='C')
        return big[idx]
    if mode == 'view':
        big = np.full(tuple(s + 2 for s in x.shape), -3.3e9, dtype=x.dtype)
        y = big[tuple(slice(1, s + 1) for s in x.shape)]
        y[...] = x
        return y
    if mode == 'perm':
        p = rng.permutation(x.ndim)
        inv = np.argsort(p)
        return np.array(x.transpose(p), order='C').transpose(inv)
    raise ValueError(mode)


def f_blocks(f, no, rng=None, mode='c'):
    from cqcpy.ov_blocks import one_e_blocks
    o, u = slice(0, no), slice(no, None)
    L = (lambda x: lay(rng, x, mode)) if mode != 'slice' else (lambda x: x)
    return one_e_blocks(L(f[o, o]), L(f[o, u]), L(f[u, o]), L(f[u, u]))


def cut(v, ns, name):
    return v[tuple(slice(0, ns[j]) if c == 'o' else slice(ns[j], None)
                   for j, c in enumerate(name))]


def v_blocks(v, ns, names=N9, rng=None, mode='c'):
    """ns: number of occupied orbitals per index (int or 4 ints)."""
    from cqcpy.ov_blocks import two_e_blocks, two_e_blocks_full
    if not hasattr(ns, '__len__'):
        ns = [ns]*4
    L = (lambda x: lay(rng, x, mode)) if mode != 'slice' else (lambda x: x)
    cls = two_e_blocks if len(names) == 9 else two_e_blocks_full
    return cls(**{k: L(cut(v, ns, k)) for k in names})


# ---------------------------------------------------------------- profiles
KINDS = ['normal', 'normal', 'normal', 'large', 'small', 't1zero', 't2zero',
         'tzero', 'lzero', 'l1zero', 'l2zero', 'fzero', 'fdiag', 'vsparse',
         'tsparse', 'single', 'int', 'vzero', 'degenerate', 'tiny1', 'tiny2',
         'tinyfov', 'tinyv', 'wide', 'canon', 'ladj', 'nodrive', 'vovzero',
         'ladj1', 'ladj2', 'some', 'fsome', 'rank1', 'tiny1wide']


def sym_mask(rng, shape, keep):
    """0/1 mask that respects antisymmetry of both pairs."""
    if len(shape) == 2:
        return (rng.random(shape) < keep).astype(float)
    m = rng.random(shape)
    if shape[0] == shape[1]:
        m = np.minimum(m, m.transpose(1, 0, 2, 3))
    if shape[2] == shape[3]:
        m = np.minimum(m, m.transpose(0, 1, 3, 2))
    return (m < 1 - (1 - keep)**0.25).astype(float) if keep < 1 else m*0 + 1


def spread(rng, x, decades=9.0):
    """Scale the elements of x over many orders of magnitude in place,
    keeping the permutational symmetry."""
    e = rng.random(x.shape)
    if x.ndim == 4 and x.shape[0] == x.shape[1]:
        e = np.minimum(e, e.transpose(1, 0, 2, 3))
    if x.ndim == 4 and x.shape[2] == x.shape[3]:
        e = np.minimum(e, e.transpose(0, 1, 3, 2))
    x *= 10.0**(-decades*e)


def tweak(rng, kind, fs, vs, ts, ls, nos=None):
    """Apply a data profile in place to lists of (rank, array) tensors.

    fs, vs, ts, ls are lists of arrays (Fock, two-electron, T, Lambda); nos
    holds the number of occupied orbitals of each Fock matrix and the four
    numbers of each two-electron tensor.
    """
    tiny = 10.0**(-rng.uniform(3.0, 9.0))
    def one(xs):
        return [x for x in xs if x.ndim == 2]

    def two(xs):
        return [x for x in xs if x.ndim == 4]
    if kind == 'large':
        for x in ts + ls:
            x *= 6.0
    elif kind == 'small':
        for x in ts + ls:
            x *= 1e-3
    elif kind == 't1zero':
        for x in one(ts):
            x[...] = 0
    elif kind == 't2zero':
        for x in two(ts):
            x[...] = 0
    elif kind == 'tzero':
        for x in ts:
            x[...] = 0
    elif kind == 'lzero':
        for x in ls:
            x[...] = 0
    elif kind == 'l1zero':
        for x in one(ls):
            x[...] = 0
    elif kind == 'l2zero':
        for x in two(ls):
            x[...] = 0
    elif kind == 'fzero':
        for x in fs:
            x[...] = 0
    elif kind == 'fdiag':
        for x in fs:
            x[...] = np.diag(np.sort(np.diag(x).real))
    elif kind == 'vsparse':
        for x in vs:
            x *= sym_mask(rng, x.shape, 0.3)
        for x in fs:
            x *= sym_mask(rng, x.shape, 0.5)
    elif kind == 'tsparse':
        for x in ts + ls:
            x *= sym_mask(rng, x.shape, 0.4)
    elif kind == 'int':
        for x in fs + vs + ts + ls:
            s = np.max(np.abs(x)) if x.size else 0
            if s > 0:
                if np.iscomplexobj(x):
                    x[...] = np.round(x.real*3/s) + 1j*np.round(x.imag*3/s)
                else:
                    x[...] = np.round(x*3/s)
    elif kind == 'vzero':
        for x in vs:
            x[...] = 0
    elif kind == 'tiny1':
        for x in one(ts + ls):
            x *= tiny
    elif kind == 'tiny2':
        for x in two(ts + ls):
            x *= tiny
    elif kind == 'tinyfov':
        for x, no in zip(fs, nos[0]):
            x[:no, no:] *= tiny
            x[no:, :no] *= tiny
    elif kind == 'tinyv':
        for x in vs:
            x *= tiny
    elif kind == 'wide':
        for x in fs + vs + ts + ls:
            spread(rng, x)
    elif kind == 'canon':
        # canonical orbitals with degenerate levels
        for x, no in zip(fs, nos[0]):
            e = np.sort(rng.integers(-2, 0, no)).tolist() \
                + np.sort(rng.integers(1, 3, x.shape[0] - no)).tolist()
            x[...] = np.diag(np.array(e, dtype=float)*0.5)
    elif kind == 'ladj':
        # Lambda = T^dagger, the usual first guess
        for x, y in zip(ls, ts):
            y = y.conj()
            x[...] = y.T if y.ndim == 2 else y.transpose(2, 3, 0, 1)
    elif kind in ('ladj1', 'ladj2'):
        # only the singles or only the doubles agree with T^dagger
        for x, y in zip(ls, ts):
            y = y.conj()
            if y.ndim == 2 and kind == 'ladj1':
                x[...] = y.T
            elif y.ndim == 4 and kind == 'ladj2':
                x[...] = y.transpose(2, 3, 0, 1)
    elif kind == 'some':
        # some of the amplitude tensors vanish
        for x in ts + ls:
            if rng.random() < 0.4:
                x[...] = 0
    elif kind == 'fsome':
        # some blocks of the Fock matrices vanish
        for x, no in zip(fs, nos[0]):
            for r in (slice(0, no), slice(no, None)):
                for c in (slice(0, no), slice(no, None)):
                    if rng.random() < 0.4:
                        x[r, c] = 0
        for x in one(ts + ls):
            if rng.random() < 0.3:
                x[...] = 0
    elif kind == 'rank1':
        # singles that are a product of two vectors
        for x in one(ts + ls):
            if x.size:
                x[...] = np.outer(x[:, 0], x[0, :])
    elif kind == 'tiny1wide':
        # singles of widely varying size, all far below the doubles
        for x in one(ts + ls):
            spread(rng, x)
            x *= tiny
    elif kind == 'nodrive':
        # no driving term: the residual is at least linear in T
        for x, no in zip(fs, nos[0]):
            x[no:, :no] = 0
        for x, n in zip(vs, nos[1]):
            x[n[0]:, n[1]:, :n[2], :n[3]] = 0
    elif kind == 'vovzero':
        # nothing couples to the excitation manifold from below
        for x, no in zip(fs, nos[0]):
            x[:no, no:] = 0
        for x, n in zip(vs, nos[1]):
            x[:n[0], :n[1], n[2]:, n[3]:] = 0
    elif kind == 'degenerate':
        # constant magnitude entries: exercises value-dependent shortcuts
        for x in ts + ls:
            nz = np.abs(x) > 0
            x[nz] = 0.25*x[nz]/np.abs(x[nz])


def single(rng, x):
    """Keep one (antisymmetry-related) element of x in place."""
    if x.size == 0:
        return
    idx = tuple(int(rng.integers(s)) for s in x.shape)
    idx2 = {idx}
    if x.ndim == 4 and x.shape[0] == x.shape[1]:
        idx2 |= {(q, p, r, s) for p, q, r, s in idx2}
    if x.ndim == 4 and x.shape[2] == x.shape[3]:
        idx2 |= {(p, q, s, r) for p, q, r, s in idx2}
    keep = {i: x[i] for i in idx2}
    x[...] = 0
    for i, val in keep.items():
        x[i] = val


def so_data(rng, no, nv, cplx=False, herm=False, kind='normal'):
    n = no + nv
    s = 1.0/max(1.0, (n/5.0)**1.5)
    f = gen.full_f(rng, n, 1.0, cplx, herm)
    v = gen.full_anti(rng, n, 1.0, cplx, herm)
    t1, t2 = gen.t_amps(rng, no, nv, 0.4*s, 0.4*s, cplx)
    l1, l2 = gen.l_amps(rng, no, nv, 0.4*s, 0.4*s, cplx)
    tweak(rng, kind, [f], [v], [t1, t2], [l1, l2], ([no], [[no]*4]))
    if kind == 'single':
        for x in (t1, t2, l1, l2):
            single(rng, x)
    return f, v, t1, t2, l1, l2


def mag(*xs):
    out = 0.0
    for x in xs:
        if np.size(x):
            out = max(out, float(np.max(np.abs(x))))
    return out


def dclass(*dims):
    """Coarse dimension class used in regime keys."""
    return 'x'.join('%d' % d for d in dims)


KIN = ['object', 'equal', 'signs', 'order', 'near', 'scaled', 'one', 'negated']
KINSYM = ['object', 'equal', 'scaled', 'negated']      # keep symmetries


def kin(rng, x, what=None):
    """A tensor closely related to x along its last axis: the same object,
    an equal one, other column signs, permuted columns, nearly equal, scaled,
    one element changed or negated."""
    what = what or KIN[int(rng.integers(len(KIN)))]
    if what == 'object':
        return x
    y = x.copy()
    if y.size == 0:
        return y
    n = y.shape[-1]
    if what == 'signs':
        y = y*np.where(rng.random(n) < 0.5, 1, -1).astype(y.real.dtype)
    elif what == 'order':
        y = y[..., rng.permutation(n)]
    elif what == 'near' and y.dtype.kind in 'fc':
        y = y*(1 + 10.0**-rng.uniform(4, 11)*rng.standard_normal(y.shape))
    elif what == 'scaled' and y.dtype.kind in 'fc':
        y = y*(1 + 10.0**-rng.uniform(0, 9))
    elif what == 'one':
        y.reshape(-1)[rng.integers(y.size)] *= -1
    elif what == 'negated':
        y = -y
    return y
