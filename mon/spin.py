"""Independent spin bookkeeping.

Spin-orbital order used by the oracles: occ-alpha, occ-beta, vir-alpha,
vir-beta.  Spatial tensors are over occ+vir of one spin.
"""
import numpy as np
from . import gen


class Dims(object):
    def __init__(self, noa, nob, nva, nvb):
        self.noa, self.nob, self.nva, self.nvb = noa, nob, nva, nvb
        self.na, self.nb = noa + nva, nob + nvb
        self.no, self.nv = noa + nob, nva + nvb
        self.n = self.no + self.nv
        # position in the spin-orbital ordering of every spatial orbital
        self.ia = np.array([*range(noa)]
                           + [self.no + k for k in range(nva)], dtype=int)
        self.ib = np.array([noa + k for k in range(nob)]
                           + [self.no + nva + k for k in range(nvb)],
                           dtype=int)

    def __repr__(self):
        return "noa%d_nob%d_nva%d_nvb%d" % (self.noa, self.nob, self.nva,
                                            self.nvb)


def embed1(d, fa, fb):
    f = np.zeros((d.n, d.n), dtype=np.result_type(fa, fb))
    f[np.ix_(d.ia, d.ia)] = fa
    f[np.ix_(d.ib, d.ib)] = fb
    return f


def embed2(d, vaa, vbb, vab):
    """vaa, vbb antisymmetrised; vab[p,Q,r,S] plain."""
    v = np.zeros((d.n,)*4, dtype=np.result_type(vaa, vbb, vab))
    a, b = d.ia, d.ib
    v[np.ix_(a, a, a, a)] = vaa
    v[np.ix_(b, b, b, b)] = vbb
    v[np.ix_(a, b, a, b)] = vab
    v[np.ix_(b, a, b, a)] = vab.transpose(1, 0, 3, 2)
    v[np.ix_(a, b, b, a)] = -vab.transpose(0, 1, 3, 2)
    v[np.ix_(b, a, a, b)] = -vab.transpose(1, 0, 2, 3)
    return v


def embed_amp1(d, ta, tb, kind='T'):
    """T1[a,i] (kind T) or L1[i,a] (kind L) into spin-orbital block."""
    dt = np.result_type(ta, tb)
    if kind == 'T':
        t = np.zeros((d.nv, d.no), dtype=dt)
        t[:d.nva, :d.noa] = ta
        t[d.nva:, d.noa:] = tb
    else:
        t = np.zeros((d.no, d.nv), dtype=dt)
        t[:d.noa, :d.nva] = ta
        t[d.noa:, d.nva:] = tb
    return t


def embed_amp2(d, taa, tab, tbb, kind='T'):
    dt = np.result_type(taa, tab, tbb)
    if kind == 'T':
        (x, X), N = (d.nva, d.noa), (d.nv, d.nv, d.no, d.no)
    else:
        (x, X), N = (d.noa, d.nva), (d.no, d.no, d.nv, d.nv)
    t = np.zeros(N, dtype=dt)
    t[:x, :x, :X, :X] = taa
    t[x:, x:, X:, X:] = tbb
    t[:x, x:, :X, X:] = tab
    t[x:, :x, X:, :X] = tab.transpose(1, 0, 3, 2)
    t[:x, x:, X:, :X] = -tab.transpose(0, 1, 3, 2)
    t[x:, :x, :X, X:] = -tab.transpose(1, 0, 2, 3)
    return t


def split_amp1(d, t, kind='T'):
    (x, X) = (d.nva, d.noa) if kind == 'T' else (d.noa, d.nva)
    return t[:x, :X], t[x:, X:]


def split_amp2(d, t, kind='T'):
    (x, X) = (d.nva, d.noa) if kind == 'T' else (d.noa, d.nva)
    return t[:x, :x, :X, :X], t[:x, x:, :X, X:], t[x:, x:, X:, X:]


def block_index(d, label):
    """Index arrays for a mixed-case block label such as 'cIaB'.

    a-h virtual, i-n occupied; lower case alpha, upper case beta.
    """
    out = []
    for ch in label:
        virt = ch.lower() in 'abcdefgh'
        beta = ch.isupper()
        if virt:
            out.append(d.no + (d.nva if beta else 0)
                       + np.arange(d.nvb if beta else d.nva))
        else:
            out.append((d.noa if beta else 0)
                       + np.arange(d.nob if beta else d.noa))
    return np.ix_(*out)


def random_u(rng, d, cplx=False, s1=0.3, s2=0.3, sf=1.0, sv=1.0, herm=False):
    w = dict(fa=gen.full_f(rng, d.na, sf, cplx, herm),
             fb=gen.full_f(rng, d.nb, sf, cplx, herm),
             vaa=gen.full_anti(rng, d.na, sv, cplx, herm),
             vbb=gen.full_anti(rng, d.nb, sv, cplx, herm),
             vab=gen.rnd(rng, (d.na, d.nb, d.na, d.nb), sv, cplx))
    if herm:
        w['vab'] = 0.5*(w['vab'] + w['vab'].transpose(2, 3, 0, 1).conj())
    w['t1a'], w['t2aa'] = gen.t_amps(rng, d.noa, d.nva, s1, s2, cplx)
    w['t1b'], w['t2bb'] = gen.t_amps(rng, d.nob, d.nvb, s1, s2, cplx)
    w['t2ab'] = gen.rnd(rng, (d.nva, d.nvb, d.noa, d.nob), s2, cplx)
    w['l1a'], w['l2aa'] = gen.l_amps(rng, d.noa, d.nva, s1, s2, cplx)
    w['l1b'], w['l2bb'] = gen.l_amps(rng, d.nob, d.nvb, s1, s2, cplx)
    w['l2ab'] = gen.rnd(rng, (d.noa, d.nob, d.nva, d.nvb), s2, cplx)
    return w


def random_r(rng, no, nv, cplx=False, s1=0.3, s2=0.3, sf=1.0, sv=1.0,
             herm=False):
    """Closed-shell tensors; also returns the unrestricted equivalent."""
    n = no + nv
    f = gen.full_f(rng, n, sf, cplx, herm)
    v = gen.rnd(rng, (n,)*4, sv, cplx)
    v = 0.5*(v + v.transpose(1, 0, 3, 2))
    if herm:
        v = 0.5*(v + v.transpose(2, 3, 0, 1).conj())
    t1 = gen.rnd(rng, (nv, no), s1, cplx)
    t2 = gen.rnd(rng, (nv, nv, no, no), s2, cplx)
    t2 = 0.5*(t2 + t2.transpose(1, 0, 3, 2))
    l1 = gen.rnd(rng, (no, nv), s1, cplx)
    l2 = gen.rnd(rng, (no, no, nv, nv), s2, cplx)
    l2 = 0.5*(l2 + l2.transpose(1, 0, 3, 2))
    return dict(f=f, v=v, t1=t1, t2=t2, l1=l1, l2=l2)


def r_to_u(w):
    anti = lambda x: x - x.transpose(0, 1, 3, 2)
    return dict(fa=w['f'], fb=w['f'], vaa=anti(w['v']), vbb=anti(w['v']),
                vab=w['v'], t1a=w['t1'], t1b=w['t1'], t2aa=anti(w['t2']),
                t2bb=anti(w['t2']), t2ab=w['t2'], l1a=w['l1'], l1b=w['l1'],
                l2aa=anti(w['l2']), l2bb=anti(w['l2']), l2ab=w['l2'])


def to_so(d, w):
    """Spin-orbital (f, v, t1, t2, l1, l2) from unrestricted pieces."""
    return (embed1(d, w['fa'], w['fb']),
            embed2(d, w['vaa'], w['vbb'], w['vab']),
            embed_amp1(d, w['t1a'], w['t1b']),
            embed_amp2(d, w['t2aa'], w['t2ab'], w['t2bb']),
            embed_amp1(d, w['l1a'], w['l1b'], 'L'),
            embed_amp2(d, w['l2aa'], w['l2ab'], w['l2bb'], 'L'))
