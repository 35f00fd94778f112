"""Call recipes for the public functions.

`recipes(seed, size, cplx)` yields (name, function, args, kwargs) with fresh
arguments; two calls with the same key give equal, independent arguments.
Nothing here needs the optional quantum-chemistry package except the
recipes of `integral_recipes`.
"""
import copy
import numpy as np
from . import gen, lib, spin, harness, ci

SIZES = [(2, 2, 2, 2), (2, 1, 2, 3), (3, 2, 2, 3), (1, 2, 3, 2), (2, 3, 3, 2),
         (1, 1, 1, 1), (0, 2, 3, 1), (2, 2, 0, 0), (2, 0, 1, 3),
         (0, 0, 2, 2)]


# data profiles: those of the coupled-cluster checks, Hermitian integrals,
# equal alpha and beta data as equal arrays or as the same objects
PROFILES = sorted(set(lib.KINDS) - {'normal'}) + ['herm', 'raw', 'equal', 'shared'] + \
    ['partly:' + k for k in ('v', 'f,v', 't2', 't1,t2,l1', 'l2,f')]


def recipes(seed, size, cplx, prof=None):
    from cqcpy import (cc_energy as en, cc_equations as ce, ci_utils as cu,
                       ft_utils as ft, ov_blocks as ob, spin_utils as su,
                       utils as ut)
    rng = harness.rng_of('registry', seed, tuple(size), cplx)
    z = bool(cplx)
    # 'real T' / 'real L': complex integrals with some real amplitudes
    drop = dict([('real T', 't'), ('real L', 'l'), ('real TL', 'tl')]
                ).get(cplx, '')

    def part(x, c):
        return x.real.copy() if c in drop and z else x
    d = spin.Dims(*size)
    noa, nob, nva, nvb = size
    no, nv = d.no, d.nv
    out = []

    def add(mod, name, *args, **kw):
        out.append((name, getattr(mod, name, None), args, kw))
    # ---- spin-orbital coupled cluster
    kind = prof if prof in lib.KINDS else 'normal'
    herm = prof == 'herm'
    both = (prof or '').split(':')[0] in ('equal', 'shared', 'partly') and \
        noa == nob and nva == nvb
    f, v, t1, t2, l1, l2 = lib.so_data(rng, no, nv, z, herm, kind)
    if prof == 'raw':
        # amplitudes without any symmetry
        t2, l2 = (gen.rnd(rng, x.shape, 1.0, z) for x in (t2, l2))
    t1, t2, l1, l2 = [part(x, c) for x, c in zip((t1, t2, l1, l2), 'ttll')]
    F, I = lib.f_blocks(f, no), lib.v_blocks(v, no)
    for n in ('ccd_simple', 'ccd_stanton', 'lccd_simple'):
        add(ce, n, F, I, t2)
    for n in ('ccd_ladder_simple', 'ccd_ring_simple'):
        add(ce, n, I, t2)
    for n in ('ccsd_simple', 'ccsd_stanton', 'lccsd_simple'):
        add(ce, n, F, I, t1, t2)
    add(ce, 'ccd_lambda_simple', F, I, l2, t2)
    for n in ('ccsd_lambda_simple', 'ccsd_lambda_opt', 'ccsd_lambda_stanton'):
        add(ce, n, F, I, l1, l2, t1, t2)
    add(ce, 'lambda_int', F, I, t1, t2)
    if hasattr(ce, 'lambda_int'):
        add(ce, 'ccsd_lambda_opt_int', F, I, l1, l2, t1, t2,
            ce.lambda_int(F, I, t1, t2))
    for n in ('1rdm_ba', '1rdm_ji', '1rdm_ai', '2rdm_cdab', '2rdm_ciab',
              '2rdm_bcai', '2rdm_bjai', '2rdm_abij', '2rdm_jkai',
              '2rdm_kaij', '2rdm_klij', '1rdm_ai_opt', '2rdm_cdab_opt',
              '2rdm_bcai_opt', '2rdm_bjai_opt', '2rdm_abij_opt',
              '2rdm_kaij_opt', '2rdm_klij_opt'):
        add(ce, 'ccsd_' + n, t1, t2, l1, l2)
    add(ce, 'ccsd_1rdm_ai', t1, t2, l1, l2, tfac=0.3)
    # ---- unrestricted
    w = spin.random_u(rng, d, z, herm=herm)
    ts, ls = (['%s%s' % (x, k) for k in ('1a', '1b', '2aa', '2ab', '2bb')]
              for x in 'tl')
    lib.tweak(rng, kind, [w['fa'], w['fb']], [w['vaa'], w['vbb'], w['vab']],
              [w[k] for k in ts], [w[k] for k in ls],
              ([noa, nob], [[noa]*4, [nob]*4, [noa, nob, noa, nob]]))
    w = {k: part(x, k[0]) for k, x in w.items()}
    # 'partly': some tensors are one object for both spins, others differ
    keys = [k for k in ('f', 't1', 'l1', 'v', 't2', 'l2') if both and
            (prof[0] != 'p' or k in prof[7:].split(','))]
    for k in keys:
        if k in ('v', 't2', 'l2'):
            w[k + 'ab'] = 0.5*(w[k + 'ab'] + w[k + 'ab'].transpose(1, 0, 3, 2))
            w[k + 'aa'] = w[k + 'ab'] - w[k + 'ab'].transpose(0, 1, 3, 2)
            w[k + 'bb'] = w[k + 'aa'].copy()
        else:
            w[k + 'b'] = w[k + 'a'].copy()
        if prof != 'equal':
            a = 'aa' if k in ('v', 't2', 'l2') else 'a'
            w[k + a.replace('a', 'b')] = w[k + a]
    Fa, Fb = lib.f_blocks(w['fa'], noa), lib.f_blocks(w['fb'], nob)
    Ia, Ib = lib.v_blocks(w['vaa'], noa), lib.v_blocks(w['vbb'], nob)
    Fb = Fa if prof != 'equal' and 'f' in keys else Fb
    Ib = Ia if prof != 'equal' and 'v' in keys else Ib
    ns = [noa, nob, noa, nob]
    Iab = lib.v_blocks(w['vab'], ns, lib.N16)
    T1, T2 = (w['t1a'], w['t1b']), (w['t2aa'], w['t2ab'], w['t2bb'])
    L1, L2 = (w['l1a'], w['l1b']), (w['l2aa'], w['l2ab'], w['l2bb'])
    add(ce, 'uccsd_stanton', Fa, Fb, Ia, Ib, Iab, T1, T2)
    add(ce, 'uccsd_lambda_opt', Fa, Fb, Ia, Ib, Iab, L1, L2, T1, T2)
    for n in ('1rdm_ba', '1rdm_ji', '1rdm_ai', '2rdm_ciab', '2rdm_jkai',
              '2rdm_cdab', '2rdm_bjai', '2rdm_klij', '2rdm_bcai',
              '2rdm_kaij', '2rdm_abij'):
        add(ce, 'uccsd_' + n, *(T1 + T2 + L1 + L2))
    for n in ('ucc_energy', 'ump2_energy'):
        add(en, n, T1, T2, Fa.ov, Fb.ov, Ia.oovv, Ib.oovv, Iab.oovv)
    # ---- restricted
    r = spin.random_r(rng, noa, nva, z, herm=herm)
    lib.tweak(rng, kind, [r['f']], [r['v']], [r['t1'], r['t2']],
              [r['l1'], r['l2']], ([noa], [[noa]*4]))
    r = {k: part(x, k[0]) for k, x in r.items()}
    RF = lib.f_blocks(r['f'], noa)
    RI = lib.v_blocks(r['v'], noa, lib.N16)
    add(ce, 'rccsd_stanton', RF, RI, r['t1'], r['t2'])
    add(ce, 'rccsd_lambda_opt', RF, RI, r['l1'], r['l2'], r['t1'], r['t2'])
    for n in ('1rdm_ba', '1rdm_ji', '1rdm_ai', '2rdm_ciab', '2rdm_jkai',
              '2rdm_cdab', '2rdm_bjai', '2rdm_bjia', '2rdm_klij',
              '2rdm_bcai', '2rdm_kaij', '2rdm_abij'):
        add(ce, 'rccsd_' + n, r['t1'], r['t2'], r['l1'], r['l2'])
    add(en, 'rcc_energy', r['t1'], r['t2'], RF.ov, RI.oovv)
    # ---- energies
    add(en, 'cc_energy', t1, t2, F.ov, I.oovv)
    add(en, 'mp2_energy', t1, t2, F.ov, I.oovv)
    add(en, 'cc_energy_d', t2, I.oovv)
    add(en, 'cc_energy_s1', t1, F.ov)
    add(en, 'cc_energy_s2', t1, I.oovv)
    add(en, 'cc_energy_s2_a', t1, gen.rnd(rng, t1.shape, 1.0, z), I.oovv)
    # ---- spin conversions
    N = (noa, nva, nob, nvb)
    add(su, 'F_to_spin', Fa, Fb, *N)
    add(su, 'F_to_spatial', F, *N)
    add(su, 'T1_to_spin', *T1, *N)
    add(su, 'T1_to_spatial', t1, *N)
    add(su, 'T2_to_spin', *T2, *N)
    add(su, 'T2_to_spatial', t2, *N)
    add(su, 'D2_to_spin', *T2, *N)
    va, vb = gen.rnd(rng, (d.na,)*4, 1.0, z), gen.rnd(rng, (d.nb,)*4, 1.0, z)
    va, vb = va + va.transpose(1, 0, 3, 2), vb + vb.transpose(1, 0, 3, 2)
    add(su, 'int_to_spin', lib.v_blocks(va, noa, lib.N16),
        lib.v_blocks(vb, nob, lib.N16), Iab, *N)
    add(su, 'int_to_spin2', Ia, Ib, Iab, *N)
    add(su, 'int_to_spatial', I, noa, nob, nva, nvb)
    pats = ['aaaa', 'bbbb', 'abab', 'baba', 'abba', 'baab']
    dim = dict(a=[noa, nva, nob, nvb], b=[nva, noa, nvb, nob])
    add(su, 'int_to_spin_block', *[
        gen.rnd(rng, tuple(dim[c][k] for k, c in enumerate(s)), 1.0, z)
        for s in pats], *dim['a'], *dim['b'])
    # ---- blocks and denominators
    X = gen.rnd(rng, (noa + nva, nob + nvb, no + 1, nv + 1), 1.0, z)
    for n in ('make_two_e_blocks', 'make_two_e_blocks_full'):
        add(ob, n, X, noa, nva, nob, nvb, no, 1, nv, 1)
    es = [gen.rnd(rng, (k,)) for k in (nva, nvb, noa, nob)]
    if both:
        es[1], es[3] = es[0], es[2]
    add(ut, 'D1', es[0], es[2])
    add(ut, 'D2', es[0], es[2])
    add(ut, 'D2u', *es)
    add(ut, 'block_diag', w['t1a'], w['t1b'])
    # ---- finite temperature
    e1, e2 = gen.rnd(rng, (no,), 3.0), gen.rnd(rng, (nv,), 30.0)
    beta, mu = float(10**rng.uniform(-1, 2)), float(rng.normal())
    for n in ('ff', 'ffv', 'GP0', 'dGP0'):
        add(ft, n, beta, e1, mu)
        add(ft, n, beta, e2, mu)
    add(ft, 'uGP0', beta, e1, e2, mu)
    for n in ('fermi_function', 'vfermi_function', 'grand_potential0',
              'dgrand_potential0'):
        for x in (0.3, -0.3, 25.0, -25.0, 35.0, -800.0):
            add(ft, n, beta, mu + x/beta, mu)
    add(ft, 'HtoK', beta)
    if no + nv > 14:
        return unique(out)
    # ---- configuration interaction
    n = max(noa + nva, 1)
    na, nb = min(noa, n), min(nob, n)
    occ = [int(x) for x in rng.integers(0, 2, n)]
    for s in ('s_strings', 'd_strings', 't_strings', 'q_strings'):
        add(cu, s, n, na)
        add(cu, s, n, sum(occ), occ=list(occ))
    for s in ('s_pstrings', 'd_pstrings', 'vcis_basis', 'vcisd_basis'):
        add(cu, s, n)
    for s in ('ucis_basis', 'ucisd_basis', 'ucisdt_basis', 'ucisdtq_basis'):
        add(cu, s, n, na, nb)
    ng = 2*((no + nv + 1)//2)
    for s in ('gcis_basis', 'gcisd_basis', 'gcisdt_basis', 'gcisdtq_basis'):
        add(cu, s, ng, no)
    if noa + nva == nob + nvb:
        for o in (1, 2, 3):
            add(cu, 'makeCfromT', *N, *T1, *T2, order=o)
        if (no + nv) % 2 == 0 and no + nv <= 8 and abs(noa - nob) < 2:
            for o in (1, 2, 3):
                add(cu, 'gmakeCfromT', no, nv, t1, t2, order=o)
    A, B = cu.Dstring(n, occ), cu.Dstring(n, occ[::-1])
    P = cu.Pstring(n, [x + 1 for x in occ])
    add(cu, 'level', A, B)
    add(cu, 'diff', A, B)
    i, a = int(rng.integers(n)), int(rng.integers(n))
    out.append(('Dstring', cu.Dstring, (n, list(occ)), {}))
    out.append(('Dstring#array', cu.Dstring, (n, np.array(occ)), {}))
    out.append(('Pstring', cu.Pstring, (n, list(occ)), {}))
    out.append(('Pstring#array', cu.Pstring, (n, np.array(occ)), {}))
    out.append(('excite', lambda s, i, a: s.excite(i, a), (A, i, a), {}))
    out.append(('equal', lambda s, t: s == t, (A, B), {}))
    out.append(('raize', lambda s, i: s.raize(i), (P, i), {}))
    out.append(('lower', lambda s, i: s.lower(i), (P, i), {}))
    out.append(('equal#P', lambda s, t: s == t, (P, P), {}))
    h = gen.rnd(rng, (n, n), 1.0, z)
    V = gen.rnd(rng, (n,)*4, 1.0, z)
    V = V + V.transpose(1, 0, 3, 2)
    Vab = gen.rnd(rng, (n,)*4, 1.0, z)
    h2 = gen.rnd(rng, (n, n), 1.0, z)
    if both:
        h2 = h if prof == 'shared' else h.copy()
        Vab = V if prof == 'shared' else V.copy()
    gb = [cu.Dstring(n, ci.occ_of(x, n)) for x in range(2**n)
          if ci.pop(x) == na][:20]
    ub = [(x, y) for x in gb[:5] for y in gb[:5]]
    for x in (gb[0], gb[-1]):
        add(cu, 'gci_matrixel', x, gb[0], h, V, 0.7)
        add(cu, 'ci_matrixel', x, gb[0], gb[0], gb[-1], h, h2, V, V, Vab,
            0.7)
    gv = gen.rnd(rng, (len(gb),), 1.0, z)
    uv = gen.rnd(rng, (len(ub),), 1.0, z)
    k = [int(x) for x in rng.integers(0, n, 4)]
    add(cu, 's_on_vec', gb, gv, k[0], k[1])
    add(cu, 'd_on_vec', gb, gv, *k)
    add(cu, 'gH_on_vec', gb, gv, h, V)
    for s in ('sa_on_vec', 'sb_on_vec'):
        add(cu, s, ub, uv, k[0], k[1])
    for s in ('da_on_vec', 'db_on_vec', 'sasb_on_vec'):
        add(cu, s, ub, uv, *k)
    add(cu, 'H_on_vec', ub, uv, h, h2, V, V, Vab)
    return unique(out)


def unique(out):
    """Names may repeat; make them unique."""
    seen, uniq = {}, []
    for nm, fn, ar, kw in out:
        seen[nm] = seen.get(nm, 0) + 1
        uniq.append((nm if seen[nm] == 1 else '%s#%d' % (nm, seen[nm]),
                     fn, ar, kw))
    return uniq


def integral_recipes(seed):
    """Recipes that need the quantum-chemistry package."""
    from cqcpy import integrals as it
    from . import ints
    from pyscf import scf
    from pyscf.pbc import scf as pscf
    rng = harness.rng_of('registry integrals', seed)
    out = []

    def add(name, *args, **kw):
        out.append((name, getattr(it, name, None), args, kw))
    mol, eri = ints.molecule(['HF', 'H3', 'LiH'][seed % 3])
    n = eri.shape[0]

    def C(k, z=False, nn=n):
        return gen.rnd(rng, (nn, k), 1.0, z)
    o = [C(k) for k in (2, 1, 3, 2)]
    p = [C(k) for k in (1, 2, 2, 3)]
    for f in ('get_chem', 'get_chem_anti', 'get_phys', 'get_phys_anti'):
        add(f, mol, *o)
    for f in ('get_chemu', 'get_chem_antiu', 'get_phys_antiu'):
        add(f, mol, *o, *p)
    for f in ('get_chemu_all', 'get_chem_antiu_all', 'get_physu_all',
              'get_phys_antiu_all'):
        add(f, mol, o[0], p[3])
    for f in ('get_chem', 'get_phys'):
        add(f, mol, *o, anti=True)
    add('get_chemu', mol, *o, *p, anti=True)
    for f in ('get_chemu_all', 'get_physu_all'):
        add(f, mol, o[0], p[3], anti=True)
    rhf, uhf = scf.RHF(mol), scf.UHF(mol)
    rhf.verbose = uhf.verbose = 0
    rhf.mo_coeff, rhf.mo_occ = C(4), np.array([2., 0., 2., 0.])
    uhf.mo_coeff = np.array([C(3), C(3)])
    uhf.mo_occ = np.array([[1., 0., 1.], [0., 1., 0.]])
    for mf in (rhf, uhf):
        add('get_physu_all_gen', mf)
        add('get_phys_antiu_all_gen', mf)
        add('get_phys_gen', mf, *o)
        for code in (0, 4):
            add('eri_blocks', mf, code=code)
    cell = ints.cell('HeH')
    nc = cell.nao_nr()
    for k in ([0., 0., 0.], [0.1, 0.2, 0.05]):
        mf = pscf.UHF(cell, kpt=np.array(k))
        mf.verbose = 0
        mf.mo_coeff = np.array([C(2, True, nc), C(2, True, nc)])
        mf.mo_occ = np.array([[1., 0.], [0., 1.]])
        q = [C(x, True, nc) for x in (2, 1, 1, 2)]
        s = [C(x, True, nc) for x in (1, 2, 1, 2)]
        for f in ('get_chem_sol', 'get_phys_sol'):
            add(f, mf, *q)
        for f in ('get_chemu_sol', 'get_chem_antiu_sol',
                  'get_phys_antiu_sol'):
            add(f, mf, *q, *s)
        for f in ('get_chemu_all_sol', 'get_physu_all_sol'):
            add(f, mf, q[0], s[0])
        add('get_physu_all_gen', mf)
        add('eri_blocks', mf)
    kpts = cell.make_kpts([1, 1, 2])
    kmf = pscf.KRHF(cell, kpts)
    kmf.verbose = 0
    kmf.mo_coeff = [C(2, True, nc) for _ in kpts]
    kmf.mo_occ = [np.array([2., 0.]) for _ in kpts]
    for f in ('get_chem_solk', 'get_phys_solk'):
        add(f, kmf, (0, 1, 1, 0), *q)
        add(f, kmf, (0, 1, 0, 0), *q)
    add('get_solk_integrals', kmf)
    add('get_solk_integrals', kmf, 'phys')
    return unique(out)


# ------------------------------------------------------------- traversal
def is_leaf(x):
    return x is None or isinstance(x, (bool, int, float, complex, str,
                                       np.generic))


MF_KEEP = ('mo_coeff', 'mo_occ', 'mo_energy', 'kpt', 'kpts', 'mol', 'cell',
           '_env', '_atm', '_bas', '_mesh', 'mesh', 'a', '_kpts', '_kpt')


def kind(x):
    """'chem' for molecule/cell/mean-field objects."""
    mod = type(x).__module__ or ''
    return 'chem' if mod.startswith('pyscf') else 'obj'


def attrs(x):
    """Attributes held by a plain object, in __dict__ or in slots."""
    out = dict(getattr(x, '__dict__', {}))
    for c in type(x).__mro__:
        names = c.__dict__.get('__slots__', ())
        for k in (names,) if isinstance(names, str) else tuple(names):
            if k in ('__dict__', '__weakref__'):
                continue
            if k.startswith('__') and not k.endswith('__'):
                k = '_%s%s' % (c.__name__.lstrip('_'), k)
            try:
                out.setdefault(k, object.__getattribute__(x, k))
            except AttributeError:
                pass
    return out


def walk(x, path='', depth=0):
    """Yield (path, leaf) for arrays and scalars reachable from x."""
    if isinstance(x, np.ndarray) or is_leaf(x):
        yield path, x
        return
    if depth > 6:
        return
    if isinstance(x, (tuple, list)):
        yield path + '.len', len(x)
        for k, y in enumerate(x):
            yield from walk(y, '%s[%d]' % (path, k), depth + 1)
    elif isinstance(x, dict):
        yield path + '.keys', repr(sorted(map(repr, x)))
        for k, y in x.items():
            yield from walk(y, '%s[%r]' % (path, k), depth + 1)
    elif callable(x) and not attrs(x):
        return
    elif kind(x) == 'chem':
        for k in MF_KEEP:
            y = vars(x).get(k)      # getattr would start a calculation
            if y is not None:
                yield from walk(y, path + '.' + k, depth + 1)
    else:
        for k, y in sorted(attrs(x).items()):
            yield from walk(y, path + '.' + k, depth + 1)


def freeze(x):
    """Snapshot: path -> copy."""
    out = {}
    for p, y in walk(x):
        out[p] = y.copy() if isinstance(y, np.ndarray) else y
    return out


def differ(a, b, exact=True, tol=1e-12):
    """First difference between two snapshots (None if equal)."""
    only = sorted(p for p in set(a) ^ set(b) if p in a or '._' not in p)
    if only:
        return "different structure: %s" % only[:3]
    for p in a:
        x, y = a[p], b[p]
        if isinstance(x, (np.ndarray, np.generic, float, complex)) \
                or isinstance(y, (np.ndarray, np.generic, float, complex)):
            try:
                x, y = np.asarray(x), np.asarray(y)
                if x.shape != y.shape:
                    return "%s: shape %s and %s" % (p, x.shape, y.shape)
                if x.dtype == object or x.dtype.kind in 'US':
                    if not np.array_equal(x, y):
                        return "%s differs" % p
                    continue
                if x.size == 0:
                    continue
                if exact:
                    if not np.array_equal(x, y, equal_nan=x.dtype.kind
                                          in 'fc'):
                        return "%s: changed by up to %.3g" % (
                            p, np.nanmax(np.abs(x - y)))
                    continue
                s = max(float(np.max(np.abs(x))), float(np.max(np.abs(y))))
                d = np.abs(x - y)
                if s > 0 and not np.max(d) <= tol*max(s, 1e-3):
                    if not (np.array_equal(x, y, equal_nan=True)):
                        return "%s: differs by %.3g (largest element %.3g)" \
                            % (p, np.max(d), s)
            except TypeError:
                return "%s: %r and %r" % (p, x, y)
        elif x != y:
            return "%s: %r and %r" % (p, x, y)
    return None


def arrays(x):
    return [y for _, y in walk(x) if isinstance(y, np.ndarray)]


def relay(x, f, memo=None):
    """Copy of nested arguments with f applied to every array (shared
    objects stay shared)."""
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)][0]
    if isinstance(x, np.ndarray):
        y = f(x)
    elif is_leaf(x):
        return x
    elif isinstance(x, tuple):
        y = [relay(k, f, memo) for k in x]
        y = x._make(y) if hasattr(x, '_make') else tuple(y)
    elif isinstance(x, list):
        y = [relay(k, f, memo) for k in x]
    elif isinstance(x, dict):
        y = {k: relay(v, f, memo) for k, v in x.items()}
    elif kind(x) == 'chem' and 'mo_coeff' in vars(x):
        y = copy.copy(x)
        y.mo_coeff = relay(x.mo_coeff, f, memo)
        y.mo_occ = relay(x.mo_occ, f, memo)
    elif kind(x) == 'chem' or callable(x):
        return x
    elif attrs(x):
        y = copy.copy(x)
        for k, v in attrs(x).items():
            object.__setattr__(y, k, relay(v, f, memo))
    else:
        return x
    memo[id(x)] = (y, x)
    return y


def merge(old, new):
    """Arguments with the values of `new` in the array objects of `old`."""
    if isinstance(old, np.ndarray) and isinstance(new, np.ndarray):
        if old.shape == new.shape and old.dtype == new.dtype:
            old[...] = new
            return old
        return new
    if is_leaf(old) or is_leaf(new) or type(old) is not type(new):
        return new
    if isinstance(old, tuple):
        if len(old) != len(new):
            return new
        y = [merge(x, y) for x, y in zip(old, new)]
        return old._make(y) if hasattr(old, '_make') else tuple(y)
    if isinstance(old, list):
        if len(old) != len(new):
            return new
        for k in range(len(old)):
            old[k] = merge(old[k], new[k])
        return old
    if isinstance(old, dict):
        return {k: merge(old[k], new[k]) if k in old else new[k]
                for k in new}
    if callable(old):
        return new
    if kind(old) == 'chem':
        if 'mo_coeff' in vars(old):
            old.mo_coeff = merge(old.mo_coeff, new.mo_coeff)
            old.mo_occ = merge(old.mo_occ, new.mo_occ)
        return old
    a, b = attrs(old), attrs(new)
    for k in a:
        if k in b:
            object.__setattr__(old, k, merge(a[k], b[k]))
    return old if a else new


def spoil(rng, args):
    """Arguments of which one array does not fit: shorter, longer or with an
    element that is not a number."""
    hits = [x for x in arrays(args) if x.size and x.dtype.kind in 'fciu']
    if not hits:
        return None
    x = hits[int(rng.integers(len(hits)))]
    if x.ndim == 0:
        return None
    # objects only in vectors: contraction engines may not look at the type
    how = int(rng.integers(3 if x.ndim == 1 else 2))
    ax = int(rng.integers(x.ndim))

    def f(y):
        if y is not x:
            return y.copy()
        if how == 0:
            return np.delete(y, -1, ax)
        if how == 1:
            return np.concatenate([y, np.take(y, [0], ax)], ax)
        z = y.astype(object)
        z[-1] = None
        return z
    return relay(args, f)


def public():
    """All public callables of the library modules."""
    import importlib
    import inspect
    out = set()
    for mod in ('cc_energy', 'cc_equations', 'ci_utils', 'ft_utils',
                'ov_blocks', 'spin_utils', 'utils', 'integrals'):
        m = importlib.import_module('cqcpy.' + mod)
        for n, f in vars(m).items():
            if not n.startswith('_') and getattr(f, '__module__', '') == \
                    m.__name__ and (inspect.isfunction(f)
                                    or inspect.isclass(f)):
                out.add(n)
    return out
