"""C10: spin-orbital <-> spatial conversions."""
import numpy as np
from mon import harness, lib, gen, spin, workload

ID = "C10"
RULE = ("random spin-blocked tensors over alpha/beta dimension sets drawn "
        "from 0..4 x dtype pattern (real, complex, only one spin block "
        "complex, integer) x layout; every conversion compared element by "
        "element with an index-list embedding, then converted back; distinct "
        "= (function, dimensions, dtype pattern, layout)")
ASSUMPTIONS = ["plain same-spin integrals have particle-exchange symmetry; "
               "antisymmetrised ones are antisymmetric"]
FUNCS = ['F_to_spin', 'F_to_spatial', 'T1_to_spin', 'T1_to_spatial',
         'T2_to_spin', 'D2_to_spin', 'T2_to_spatial', 'int_to_spin',
         'int_to_spin2', 'int_to_spatial', 'int_to_spin_block']
DT = ['d', 'z', 'az', 'bz', 'abz', 'int']


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    dims = [(2, 1, 1, 2), (1, 2, 3, 1), (2, 2, 2, 2), (3, 1, 1, 2),
            (1, 0, 2, 3), (0, 2, 2, 1), (1, 1, 0, 2), (2, 0, 1, 0),
            (1, 3, 2, 4), (4, 2, 3, 5), (0, 0, 1, 2), (2, 3, 0, 0),
            (3, 2, 4, 2), (1, 1, 1, 1)]
    n = 300 if tier == 'quick' else 1500
    out = []
    for rep in range(n):
        ds = dims if rep % 2 == 0 else \
            [tuple(int(x) for x in rng.integers(0, 5, 4)) for _ in range(13)]
        if rep % 4 == 3:
            ds = ds[:6] + [(5, 6, 1, 2), (1, 2, 6, 5), (7, 0, 2, 1),
                           (3, 3, 1, 1), (1, 1, 4, 4)]
        for k, d in enumerate(ds):
            out.append(dict(dims=list(d), dt=DT[(rep + k) % len(DT)],
                            layout='c' if rep == 0 else
                            ['mix', 'slice'][int(rng.integers(2))],
                            seed=int(rng.integers(2**31))))
    for d in ((2, 2, 8, 8), (2, 1, 9, 10), (9, 9, 2, 2), (8, 10, 1, 2),
              (6, 6, 6, 6), (1, 1, 12, 12)):
        for dt in ('d', 'z'):
            out.append(dict(dims=list(d), dt=dt, layout='mix',
                            seed=int(rng.integers(2**31))))
    out.sort(key=lambda c: -sum(c['dims']))
    return out


def required(tier):
    return ["%s:%s" % (f, c) for f in FUNCS for c in ('d', 'z', 'az', 'bz')] \
        + ["int_to_spin:abz", "int_to_spin2:abz", "T2_to_spin:abz"]


def run_case(case, m):
    from cqcpy import spin_utils as su
    rng = harness.rng_of(case['seed'])
    d = spin.Dims(*case['dims'])
    dt = case['dt']
    noa, nob, nva, nvb = case['dims']
    N = (noa, nva, nob, nvb)
    lo = case['layout']

    def mk(shape, which):
        z = dt == 'z' or dt == which
        x = gen.rnd(rng, shape, 1.0, z)
        if dt == 'int':
            x = np.round(5*x).astype(int)
        return x
    near = case['dims'][0::2] == case['dims'][1::2] and rng.random() < 0.6
    if d.na != d.nb or noa != nob:
        near = False

    def kin(x, y, sym=False):
        # the beta tensor, in some steps closely related to the alpha one
        return lib.kin(rng, x, lib.KINSYM[int(rng.integers(4))] if sym
                       else None) if near and rng.random() < 0.7 else y
    L = (lambda x: lib.lay(rng, x, lo)) if lo != 'slice' else np.copy
    kw = dict(tol=1e-14, regime="%s %s %s" % (lib.dclass(*case['dims']), dt,
                                              lo), cover=(dt,))

    def fn(name):
        return getattr(su, name, None)

    def blocks(B, names):
        return [getattr(B, k) for k in names]
    f4 = ['oo', 'ov', 'vo', 'vv']
    # ---- Fock
    fa, fb = mk((d.na,)*2, 'az'), mk((d.nb,)*2, 'bz')
    fb = kin(fa, fb)
    Fa, Fb = lib.f_blocks(fa, noa, rng, lo), lib.f_blocks(fb, nob, rng, lo)
    f = spin.embed1(d, fa, fb)
    want = blocks(lib.f_blocks(f, d.no), f4)
    F = m.call('F_to_spin', fn('F_to_spin'), Fa, Fb, *N)
    if F is not harness.FAILED:
        m.equal('F_to_spin', blocks(F, f4), want, **kw)
        back = m.call('F_to_spatial', fn('F_to_spatial'), F, *N)
        if back is not harness.FAILED:
            m.equal('F_to_spatial', blocks(back[0], f4) + blocks(back[1], f4),
                    blocks(Fa, f4) + blocks(Fb, f4), **kw)
    # a general (spin-mixing) matrix: only the diagonal blocks are returned
    g = mk((d.n,)*2, 'z')
    back = m.call('F_to_spatial', fn('F_to_spatial'),
                  lib.f_blocks(g, d.no, rng, lo), *N)
    if back is not harness.FAILED:
        m.equal('F_to_spatial', blocks(back[0], f4) + blocks(back[1], f4),
                blocks(lib.f_blocks(g[np.ix_(d.ia, d.ia)], noa), f4)
                + blocks(lib.f_blocks(g[np.ix_(d.ib, d.ib)], nob), f4), **kw)
    # ---- amplitudes
    ta, tb = mk((nva, noa), 'az'), mk((nvb, nob), 'bz')
    tb = kin(ta, tb)
    t = spin.embed_amp1(d, ta, tb)
    got = m.call('T1_to_spin', fn('T1_to_spin'), L(ta), L(tb), *N)
    m.equal('T1_to_spin', got, t, **kw)
    got = m.call('T1_to_spatial', fn('T1_to_spatial'), L(t), *N)
    m.equal('T1_to_spatial', got, (ta, tb), **kw)
    taa = gen.antisym(mk((nva, nva, noa, noa), 'az'))
    tbb = kin(taa, gen.antisym(mk((nvb, nvb, nob, nob), 'bz')), True)
    tab = mk((nva, nvb, noa, nob), 'abz')
    t = spin.embed_amp2(d, taa, tab, tbb)
    got = m.call('T2_to_spin', fn('T2_to_spin'), L(taa), L(tab), L(tbb), *N)
    m.equal('T2_to_spin', got, t, **kw)
    got = m.call('T2_to_spatial', fn('T2_to_spatial'), L(t), *N)
    m.equal('T2_to_spatial', got, (taa, tab, tbb), **kw)
    # ---- denominators: same placement, no signs
    daa = mk((nva, nva, noa, noa), 'az')
    daa = daa + daa.transpose(1, 0, 2, 3)
    daa = daa + daa.transpose(0, 1, 3, 2)
    dbb = mk((nvb, nvb, nob, nob), 'bz')
    dbb = dbb + dbb.transpose(1, 0, 2, 3)
    dbb = dbb + dbb.transpose(0, 1, 3, 2)
    D = np.zeros((d.nv, d.nv, d.no, d.no),
                 dtype=np.result_type(float, daa, dbb, tab))
    D[:nva, :nva, :noa, :noa] = daa
    D[nva:, nva:, noa:, noa:] = dbb
    for a in range(nva):
        for b in range(nvb):
            for i in range(noa):
                for j in range(nob):
                    x = tab[a, b, i, j]
                    D[a, nva + b, i, noa + j] = x
                    D[nva + b, a, noa + j, i] = x
                    D[a, nva + b, noa + j, i] = x
                    D[nva + b, a, i, noa + j] = x
    got = m.call('D2_to_spin', fn('D2_to_spin'), L(daa), L(tab), L(dbb), *N)
    m.equal('D2_to_spin', got, D, **kw)
    # ---- integrals
    va, vb = mk((d.na,)*4, 'az'), mk((d.nb,)*4, 'bz')
    va, vb = va + va.transpose(1, 0, 3, 2), vb + vb.transpose(1, 0, 3, 2)
    u = rng.random()
    if u < 0.1:
        # plain integrals that happen to be antisymmetric or symmetric
        va = va - va.transpose(0, 1, 3, 2)
    elif u < 0.2:
        vb = vb - vb.transpose(0, 1, 3, 2)
    elif u < 0.3:
        va = va + va.transpose(0, 1, 3, 2)
    vb = kin(va, vb, True)
    vab = kin(va, mk((d.na, d.nb, d.na, d.nb), 'abz'))
    nsab = [noa, nob, noa, nob]
    Aa = va - va.transpose(0, 1, 3, 2)
    Ab = vb - vb.transpose(0, 1, 3, 2)
    V = spin.embed2(d, Aa, Ab, vab)
    want = blocks(lib.v_blocks(V, d.no), lib.N9)
    Iab = lib.v_blocks(vab, nsab, lib.N16, rng, lo)
    I = m.call('int_to_spin', fn('int_to_spin'),
               lib.v_blocks(va, noa, lib.N16, rng, lo),
               lib.v_blocks(vb, nob, lib.N16, rng, lo), Iab, *N)
    if I is not harness.FAILED:
        m.equal('int_to_spin', blocks(I, lib.N9), want, **kw)
    I = m.call('int_to_spin2', fn('int_to_spin2'),
               lib.v_blocks(Aa, noa, lib.N9, rng, lo),
               lib.v_blocks(Ab, nob, lib.N9, rng, lo), Iab, *N)
    if I is not harness.FAILED:
        m.equal('int_to_spin2', blocks(I, lib.N9), want, **kw)
    back = m.call('int_to_spatial', fn('int_to_spatial'),
                  lib.v_blocks(V, d.no, lib.N9, rng, lo), noa, nob, nva, nvb)
    if back is not harness.FAILED:
        m.equal('int_to_spatial', blocks(back[0], lib.N9)
                + blocks(back[1], lib.N9) + blocks(back[2], lib.N16),
                blocks(lib.v_blocks(Aa, noa), lib.N9)
                + blocks(lib.v_blocks(Ab, nob), lib.N9)
                + blocks(lib.v_blocks(vab, nsab, lib.N16), lib.N16), **kw)
    if I is not harness.FAILED:
        back = m.call('int_to_spatial', fn('int_to_spatial'), I, noa, nob,
                      nva, nvb)
        if back is not harness.FAILED:
            m.equal('round trip', blocks(back[0], lib.N9)
                    + blocks(back[1], lib.N9) + blocks(back[2], lib.N16),
                    blocks(lib.v_blocks(Aa, noa), lib.N9)
                    + blocks(lib.v_blocks(Ab, nob), lib.N9)
                    + blocks(lib.v_blocks(vab, nsab, lib.N16), lib.N16),
                    **kw)
    # ---- generic block placement
    na = [int(x) for x in rng.integers(0, 4, 4)]
    nb = [int(x) for x in rng.integers(0, 4, 4)]

    def shp(s):
        return tuple((na if c == 'a' else nb)[k] for k, c in enumerate(s))
    pats = ['aaaa', 'bbbb', 'abab', 'baba', 'abba', 'baab']
    X = {s: mk(shp(s), {'aaaa': 'az', 'bbbb': 'bz'}.get(s, 'abz'))
         for s in pats}
    B = np.zeros(tuple(p + q for p, q in zip(na, nb)),
                 dtype=np.result_type(float, *X.values()))
    for s in pats:
        idx = [np.arange(na[k]) if c == 'a' else na[k] + np.arange(nb[k])
               for k, c in enumerate(s)]
        B[np.ix_(*idx)] = X[s]
    got = m.call('int_to_spin_block', fn('int_to_spin_block'),
                 *[L(X[s]) for s in pats], *na, *nb)
    m.equal('int_to_spin_block', got, B, **kw)
