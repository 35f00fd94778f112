"""Closed-form reference models for arbitrary sizes.

The CCSD residual is obtained by T1-dressing the whole Hamiltonian (one-index
similarity transformation of bare integrals) followed by the textbook CCD
diagrams.  It is validated against mon.fock on every run that uses it.
"""
import numpy as np


def es(*args):
    return np.einsum(*args, optimize=True)


def P2(x):
    """Antisymmetrise over (a,b) and (i,j) for x[a,b,i,j]."""
    x = x - x.transpose(1, 0, 2, 3)
    return x - x.transpose(0, 1, 3, 2)


def dress(f, v, t1, no):
    """Return Fock and integrals of e^-T1 H e^T1 (occupied first)."""
    n = f.shape[0]
    dt = np.result_type(f, v, t1)
    h = f - es('piqi->pq', v[:, :no, :, :no])
    X = np.eye(n, dtype=dt)
    Y = np.eye(n, dtype=dt)
    X[no:, :no] -= t1        # creation index transformation
    Y[:no, no:] += t1.T      # Y[p,q]: annihilation index
    hd = X @ h @ Y.T
    vd = es('pqrs,ap->aqrs', v, X)
    vd = es('aqrs,bq->abrs', vd, X)
    vd = es('abrs,cr->abcs', vd, Y)
    vd = es('abcs,ds->abcd', vd, Y)
    fd = hd + es('piqi->pq', vd[:, :no, :, :no])
    return fd, vd, h


def ccsd_residuals(f, v, t1, t2):
    """(E, R1[a,i], R2[a,b,i,j]) of the normal ordered Hamiltonian."""
    no = t1.shape[1]
    o, u = slice(0, no), slice(no, None)
    fd, vd, h = dress(f, v, t1, no)
    foo, fov, fvv, fvo = fd[o, o], fd[o, u], fd[u, u], fd[u, o]
    oovv = vd[o, o, u, u]
    E = es('ia,ai->', f[o, u], t1) \
        + 0.25*es('ijab,abij->', v[o, o, u, u], t2) \
        + 0.5*es('ijab,ai,bj->', v[o, o, u, u], t1, t1)
    r1 = fvo + es('kc,acik->ai', fov, t2) \
        + 0.5*es('akcd,cdik->ai', vd[u, o, u, u], t2) \
        - 0.5*es('klic,ackl->ai', vd[o, o, o, u], t2)
    r2 = vd[u, u, o, o].astype(np.result_type(f, v, t1, t2))
    Fvv = fvv - 0.5*es('klcd,bdkl->bc', oovv, t2)
    Foo = foo + 0.5*es('klcd,cdjl->kj', oovv, t2)
    x = es('bc,acij->abij', Fvv, t2)
    r2 = r2 + x - x.transpose(1, 0, 2, 3)
    x = es('kj,abik->abij', Foo, t2)
    r2 = r2 - x + x.transpose(0, 1, 3, 2)
    r2 = r2 + 0.5*es('abcd,cdij->abij', vd[u, u, u, u], t2)
    r2 = r2 + 0.5*es('klij,abkl->abij',
                     vd[o, o, o, o] + 0.5*es('klcd,cdij->klij', oovv, t2), t2)
    W = vd[o, u, u, o] + 0.5*es('klcd,dblj->kbcj', oovv, t2)
    r2 = r2 + P2(es('kbcj,acik->abij', W, t2))
    return E, r1, r2


def lccsd_residuals(f, v, t1, t2):
    no = t1.shape[1]
    # linear part: derivative at 0 along (t1,t2) plus constant
    z1, z2 = np.zeros_like(t1), np.zeros_like(t2)
    return poly_linear(lambda s: ccsd_residuals(f, v, s*t1, s*t2)[1:],
                       (t1, t2))


def roots(M=8):
    return np.exp(2j*np.pi*np.arange(M)/M)


def taylor(fun, order, M=8):
    """Taylor coefficient (order) at 0 of a polynomial of degree < M."""
    acc = None
    for w in roots(M):
        val = fun(w)*w**(-order)/M
        acc = val if acc is None else acc + val
    return acc


def poly_linear(fun, like, M=8):
    out = []
    real = not any(np.iscomplexobj(x) for x in like)
    vals = [fun(w) for w in roots(M)]
    for k in range(len(vals[0])):
        c0 = sum(v[k] for v in vals)/M
        c1 = sum(v[k]*w**-1 for v, w in zip(vals, roots(M)))/M
        r = c0 + c1
        out.append(r.real if real else r)
    return out


def lagrangian(f, v, t1, t2, l1, l2, tfac=1.0):
    E, r1, r2 = ccsd_residuals(f, v, t1, t2)
    return tfac*E + es('ia,ai->', l1, r1) + 0.25*es('ijab,abij->', l2, r2)


def dlagrangian(f, v, t1, t2, l1, l2, d1, d2, M=8):
    """d/de L(T + e dT): polynomial of degree <= 4 in e."""
    return taylor(lambda w: lagrangian(f, v, t1 + w*d1, t2 + w*d2, l1, l2),
                  1, M)


def ring_ccd(v, t2, no):
    """RPA-type Riccati residual B + A T + T A + T B* T in (ai) space."""
    nv = t2.shape[0]
    o, u = slice(0, no), slice(no, None)
    N = nv*no
    B = v[u, u, o, o].transpose(0, 2, 1, 3).reshape(N, N)      # [ai,bj]
    A = v[o, u, u, o].transpose(1, 3, 2, 0).reshape(N, N)      # <kb||cj> [bj,ck]
    Bs = v[o, o, u, u].transpose(2, 0, 3, 1).reshape(N, N)     # [ck,dl]
    T = t2.transpose(0, 2, 1, 3).reshape(N, N)
    R = B + A @ T + T @ A.T + T @ Bs @ T
    return R.reshape(nv, no, nv, no).transpose(0, 2, 1, 3)


def ladder_ccd(v, t2, no):
    """pp/hh ladder residual over unique pairs."""
    nv = t2.shape[0]
    o, u = slice(0, no), slice(no, None)
    vp = [(a, b) for a in range(nv) for b in range(a)]
    op = [(i, j) for i in range(no) for j in range(i)]

    def pack(x, rows, cols):
        M = np.zeros((len(rows), len(cols)), dtype=x.dtype)
        for r, (p, q) in enumerate(rows):
            for c, (s, t) in enumerate(cols):
                M[r, c] = x[p, q, s, t]
        return M
    V = pack(v[u, u, o, o], vp, op)
    VV = pack(v[u, u, u, u], vp, vp)
    OO = pack(v[o, o, o, o], op, op)
    OV = pack(v[o, o, u, u], op, vp)
    T = pack(t2, vp, op)
    R = V + VV @ T + T @ OO + T @ OV @ T
    out = np.zeros(t2.shape, dtype=R.dtype)
    for r, (a, b) in enumerate(vp):
        for c, (i, j) in enumerate(op):
            x = R[r, c]
            out[a, b, i, j] = x
            out[b, a, i, j] = -x
            out[a, b, j, i] = -x
            out[b, a, j, i] = x
    return out
