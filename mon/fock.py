"""Exact second quantisation in a fixed-particle-number determinant space.

This module is the root oracle of the checks.  It knows nothing about cqcpy:
determinants are bit masks, operators are dense matrices built by applying
creation/annihilation operators one at a time with explicit fermionic signs.
"""
import itertools
import numpy as np


def annihilate(mask, p):
    """a_p |mask> -> (sign, mask') or (0, None)."""
    if not (mask >> p) & 1:
        return 0, None
    sign = -1 if bin(mask & ((1 << p) - 1)).count("1") & 1 else 1
    return sign, mask & ~(1 << p)


def create(mask, p):
    if (mask >> p) & 1:
        return 0, None
    sign = -1 if bin(mask & ((1 << p) - 1)).count("1") & 1 else 1
    return sign, mask | (1 << p)


def apply_string(mask, ops):
    """Apply a product of operators written left to right.

    ops is a sequence of (kind, orbital), kind '+' (create) or '-'.
    The rightmost operator acts first.
    """
    s = 1
    for kind, p in reversed(ops):
        t, mask = create(mask, p) if kind == '+' else annihilate(mask, p)
        if t == 0:
            return 0, None
        s *= t
    return s, mask


class Space(object):
    """All determinants of nel electrons in n spin orbitals."""

    def __init__(self, n, nel):
        self.n, self.nel = n, nel
        self.masks = [sum(1 << p for p in c)
                      for c in itertools.combinations(range(n), nel)]
        self.index = {m: k for k, m in enumerate(self.masks)}
        self.D = len(self.masks)
        self.E = np.zeros((n, n, self.D, self.D))
        for k, m in enumerate(self.masks):
            for q in range(n):
                s1, m1 = annihilate(m, q)
                if s1 == 0:
                    continue
                for p in range(n):
                    s2, m2 = create(m1, p)
                    if s2:
                        self.E[p, q, self.index[m2], k] = s1*s2

    def one_body(self, h):
        return np.tensordot(h, self.E, axes=((0, 1), (0, 1)))

    def two_body(self, v, fac=0.25):
        """fac * sum v[p,q,r,s] p+ q+ s r."""
        n, D = self.n, self.D
        # p+ q+ s r = p+ r q+ s - delta_{qr} p+ s
        X = np.tensordot(v, self.E, axes=((1, 3), (0, 1)))  # (p,r,D,D)
        A = self.E.transpose(2, 0, 1, 3).reshape(D, n*n*D)
        B = X.reshape(n*n*D, D)
        out = A @ B
        h = np.einsum('pqqs->ps', v)
        return fac*(out - self.one_body(h))


_spaces = {}


def space(n, nel):
    key = (n, nel)
    if key not in _spaces:
        _spaces[key] = Space(n, nel)
    return _spaces[key]


def expm_nilpotent(M, kmax):
    """exp of a nilpotent matrix (M^(kmax+1) == 0), exact finite series."""
    out = np.eye(M.shape[0], dtype=M.dtype)
    term = out.copy()
    for k in range(1, kmax + 1):
        term = term @ M/k
        out = out + term
    return out


class CC(object):
    """Coupled-cluster quantities from operators.

    Spin orbitals are ordered occupied first.  f is the full Fock matrix,
    v the full antisymmetrised <pq||rs>, both over no+nv orbitals.
    """

    def __init__(self, no, nv):
        self.no, self.nv = no, nv
        self.n = no + nv
        self.S = space(self.n, no)
        self.ref = self.S.index[(1 << no) - 1]

    def T_matrix(self, t1, t2):
        no = self.no
        n = self.n
        h = np.zeros((n, n), dtype=np.result_type(t1, t2))
        h[no:, :no] = t1
        M = self.S.one_body(h)
        v = np.zeros((n,)*4, dtype=h.dtype)
        v[no:, no:, :no, :no] = t2
        if no > 1 and self.nv > 1:
            M = M + self.S.two_body(v)
        return M

    def L_matrix(self, l1, l2):
        no = self.no
        n = self.n
        h = np.zeros((n, n), dtype=np.result_type(l1, l2))
        h[:no, no:] = l1
        M = self.S.one_body(h)
        v = np.zeros((n,)*4, dtype=h.dtype)
        v[:no, :no, no:, no:] = l2
        if no > 1 and self.nv > 1:
            M = M + self.S.two_body(v)
        return M

    def HN(self, f, v):
        no = self.no
        h = f - np.einsum('piqi->pq', v[:, :no, :, :no])
        H = self.S.one_body(h) + self.S.two_body(v)
        return H - H[self.ref, self.ref]*np.eye(self.S.D)

    def hbar(self, f, v, t1, t2):
        T = self.T_matrix(t1, t2)
        k = min(self.no, self.nv)
        eT = expm_nilpotent(T, k)
        emT = expm_nilpotent(-T, k)
        return emT @ self.HN(f, v) @ eT

    def linear_hbar(self, f, v, t1, t2):
        T = self.T_matrix(t1, t2)
        H = self.HN(f, v)
        return H + H @ T - T @ H

    def proj1(self, ket):
        """<Phi_i^a| ket>, array [a,i]."""
        no, nv = self.no, self.nv
        E = self.S.E
        out = np.zeros((nv, no), dtype=ket.dtype)
        for a in range(nv):
            for i in range(no):
                out[a, i] = E[no+a, i][:, self.ref] @ ket
        return out

    def proj2(self, ket):
        no, nv = self.no, self.nv
        S = self.S
        out = np.zeros((nv, nv, no, no), dtype=ket.dtype)
        refmask = (1 << no) - 1
        for a in range(nv):
            for b in range(nv):
                for i in range(no):
                    for j in range(no):
                        # a+ b+ j i
                        s, m = apply_string(
                            refmask, [('+', no+a), ('+', no+b),
                                      ('-', j), ('-', i)])
                        if s:
                            out[a, b, i, j] = s*ket[S.index[m]]
        return out

    def residuals(self, f, v, t1, t2):
        hb = self.hbar(f, v, t1, t2)
        ket = hb[:, self.ref]
        return ket[self.ref], self.proj1(ket), self.proj2(ket)

    def linear_residuals(self, f, v, t1, t2):
        ket = self.linear_hbar(f, v, t1, t2)[:, self.ref]
        return ket[self.ref], self.proj1(ket), self.proj2(ket)

    def lambda_residuals(self, f, v, t1, t2, l1, l2):
        """<0|(1+L)[Hbar, tau]|0> as arrays [i,a], [i,j,a,b]."""
        no, nv = self.no, self.nv
        hb = self.hbar(f, v, t1, t2)
        L = self.L_matrix(l1, l2)
        bra = L[self.ref, :].copy()
        bra[self.ref] += 1.0
        left = bra @ hb          # <0|(1+L) Hbar
        hket = hb[:, self.ref]   # Hbar |0>
        S = self.S
        dt = np.result_type(left, hket)
        r1 = np.zeros((no, nv), dtype=dt)
        r2 = np.zeros((no, no, nv, nv), dtype=dt)
        for i in range(no):
            for a in range(nv):
                tau = S.E[no+a, i]
                r1[i, a] = left @ tau[:, self.ref] - bra @ (tau @ hket)
        for i in range(no):
            for j in range(no):
                if i == j:
                    continue
                for a in range(nv):
                    for b in range(nv):
                        if a == b:
                            continue
                        # a+ b+ j i = a+ i b+ j
                        t = S.E[no+a, i]
                        u = S.E[no+b, j]
                        col = t @ u[:, self.ref]
                        r2[i, j, a, b] = left @ col - (bra @ t) @ (u @ hket)
        return r1, r2

    def rdms(self, t1, t2, l1, l2, tfac=1.0):
        """Normal-ordered densities.

        Returns g1[q,p] = <{p+ q}> and g2[r,s,p,q] = <{p+ q+ s r}> with
        <X> = <0|(tfac + L) e^-T X e^T|0> (occupied first ordering).
        """
        no, n = self.no, self.n
        S = self.S
        T = self.T_matrix(t1, t2)
        k = min(self.no, self.nv)
        L = self.L_matrix(l1, l2)
        bra = L[self.ref, :].astype(np.result_type(L, T, type(tfac)))
        bra[self.ref] += tfac
        left = bra @ expm_nilpotent(-T, k)
        ket = expm_nilpotent(T, k)[:, self.ref]
        norm = left @ ket
        EK = np.tensordot(S.E, ket, axes=(3, 0))   # [p,q,D]
        LE = np.tensordot(left, S.E, axes=(0, 2))  # [p,q,D]
        full1 = EK @ left                          # <p+ q>
        # <p+ q+ s r> = <p+ r q+ s> - d_qr <p+ s>
        full2 = np.einsum('prx,qsx->pqrs', LE, EK)
        d = np.eye(n)
        full2 = full2 - np.einsum('qr,ps->pqrs', d, full1)
        occ = np.zeros((n, n))
        for i in range(no):
            occ[i, i] = 1.0
        # Wick: p+q = {p+q} + n_pq ;
        g1 = full1 - norm*occ
        # p+q+sr = {p+q+sr} + n_pr{q+s} + n_qs{p+r} - n_ps{q+r} - n_qr{p+s}
        #          + n_pr n_qs - n_ps n_qr
        g2 = full2.copy()
        g2 -= np.einsum('pr,qs->pqrs', occ, g1)
        g2 -= np.einsum('qs,pr->pqrs', occ, g1)
        g2 += np.einsum('ps,qr->pqrs', occ, g1)
        g2 += np.einsum('qr,ps->pqrs', occ, g1)
        g2 -= norm*np.einsum('pr,qs->pqrs', occ, occ)
        g2 += norm*np.einsum('ps,qr->pqrs', occ, occ)
        return g1.T.copy(), g2.transpose(2, 3, 0, 1).copy()
