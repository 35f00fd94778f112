"""Determinant-level oracle: bit masks, explicit operator strings."""
import itertools
import numpy as np
from .fock import annihilate, create, apply_string


def pop(x):
    return bin(x).count("1")


def mask_of(occ, off=0):
    return sum(1 << (off + p) for p, x in enumerate(occ) if x)


def occ_of(mask, n, off=0):
    return [(mask >> (off + p)) & 1 for p in range(n)]


def bits(mask):
    out, p = [], 0
    while mask:
        if mask & 1:
            out.append(p)
        mask >>= 1
        p += 1
    return out


def element(bra, ket, h, v):
    """<bra| sum h p+q + 1/4 sum v p+q+ s r |ket>, v antisymmetrised."""
    tot = 0.0
    occ = bits(ket)
    for r in occ:
        s1, m1 = annihilate(ket, r)
        if m1 & bra != m1:
            continue
        rest = bits(bra & ~m1)
        if len(rest) != 1:
            continue
        p = rest[0]
        s2, m2 = create(m1, p)
        tot = tot + s1*s2*h[p, r]
    for i, r in enumerate(occ):
        s1, m1 = annihilate(ket, r)
        for s in occ[i+1:]:
            s2, m2 = annihilate(m1, s)
            if m2 & bra != m2:
                continue
            rest = bits(bra & ~m2)
            if len(rest) != 2:
                continue
            p, q = rest
            # p+ q+ s r
            s3, m3 = create(m2, q)
            s4, m4 = create(m3, p)
            tot = tot + s1*s2*s3*s4*v[p, q, r, s]
    return tot


def spin_blocks(ha, hb, Ia, Ib, Iab):
    """Spin-orbital h and antisymmetrised v, alpha first then beta."""
    na, nb = ha.shape[0], hb.shape[0]
    n = na + nb
    dt = np.result_type(float, ha, hb, Ia, Ib, Iab)
    h = np.zeros((n, n), dtype=dt)
    v = np.zeros((n,)*4, dtype=dt)
    A, B = slice(0, na), slice(na, None)
    h[A, A], h[B, B] = ha, hb
    v[A, A, A, A], v[B, B, B, B] = Ia, Ib
    v[A, B, A, B] = Iab
    v[B, A, B, A] = Iab.transpose(1, 0, 3, 2)
    return h, v - v.transpose(0, 1, 3, 2)


def excitations(n, occ_mask, k):
    """All masks exactly k excitations away."""
    occ = [p for p in range(n) if (occ_mask >> p) & 1]
    vir = [p for p in range(n) if not (occ_mask >> p) & 1]
    out = []
    for i in itertools.combinations(occ, k):
        for a in itertools.combinations(vir, k):
            m = occ_mask
            for p in i:
                m &= ~(1 << p)
            for p in a:
                m |= 1 << p
            out.append(m)
    return out


def exp_T(ref, ops, maxorder):
    """Coefficients of exp(T)|ref>; ops: list of (amplitude, operator string).

    Only determinants of rank <= maxorder are followed (T only excites).
    Also returns the sums of the absolute values of the terms.
    """
    tot, term, k = {ref: 1.0}, {ref: 1.0}, 1
    size, sterm = {ref: 1.0}, {ref: 1.0}
    while term and k <= maxorder:
        new, snew = {}, {}
        for m, c in term.items():
            z = sterm[m]
            for t, ops_ in ops:
                s, mm = apply_string(m, ops_)
                if s and pop(ref & ~mm) <= maxorder:
                    new[mm] = new.get(mm, 0) + s*t*c
                    snew[mm] = snew.get(mm, 0.0) + abs(t)*z
        term = {m: c/k for m, c in new.items()}
        sterm = {m: c/k for m, c in snew.items()}
        for m, c in term.items():
            tot[m] = tot.get(m, 0) + c
            size[m] = size.get(m, 0.0) + sterm[m]
        k += 1
    return tot, size


def t_ops(t1, t2, occ, vir, out=None):
    """Operator list for same-spin amplitudes t1[a,i], t2[a,b,i,j]."""
    out = [] if out is None else out
    for i, I in enumerate(occ):
        for a, A in enumerate(vir):
            if t1[a, i] != 0:
                out.append((t1[a, i], [('+', A), ('-', I)]))
    for i, I in enumerate(occ):
        for j, J in enumerate(occ[:i]):
            for a, A in enumerate(vir):
                for b, B in enumerate(vir[:a]):
                    if t2[a, b, i, j] != 0:
                        out.append((t2[a, b, i, j],
                                    [('+', A), ('+', B), ('-', J),
                                     ('-', I)]))
    return out


def tab_ops(tab, oa, va, ob, vb, out):
    for i, I in enumerate(oa):
        for j, J in enumerate(ob):
            for a, A in enumerate(va):
                for b, B in enumerate(vb):
                    if tab[a, b, i, j] != 0:
                        out.append((tab[a, b, i, j],
                                    [('+', A), ('+', B), ('-', J),
                                     ('-', I)]))
    return out
