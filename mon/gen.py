"""Random full tensors (occupied first spin-orbital ordering)."""
import numpy as np


def rnd(rng, shape, scale=1.0, cplx=False):
    x = rng.standard_normal(shape)
    if cplx:
        x = x + 1j*rng.standard_normal(shape)
    return x*scale


def antisym(x):
    """Antisymmetrise a 4-index tensor in (0,1) and (2,3)."""
    x = x - x.transpose(1, 0, 2, 3)
    x = x - x.transpose(0, 1, 3, 2)
    return 0.25*x*2.0


def full_anti(rng, n, scale=1.0, cplx=False, herm=False):
    v = antisym(rnd(rng, (n,)*4, scale, cplx))
    if herm:
        v = 0.5*(v + v.transpose(2, 3, 0, 1).conj())
    return v


def full_f(rng, n, scale=1.0, cplx=False, herm=False):
    f = rnd(rng, (n, n), scale, cplx)
    if herm:
        f = 0.5*(f + f.T.conj())
    return f


def t_amps(rng, no, nv, s1=0.3, s2=0.3, cplx=False):
    return (rnd(rng, (nv, no), s1, cplx),
            antisym(rnd(rng, (nv, nv, no, no), s2, cplx)))


def l_amps(rng, no, nv, s1=0.3, s2=0.3, cplx=False):
    return (rnd(rng, (no, nv), s1, cplx),
            antisym(rnd(rng, (no, no, nv, nv), s2, cplx)))
