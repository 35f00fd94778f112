"""AO integrals and reference transformations."""
import contextlib
import io
import numpy as np

MOLS = {
    'HF': dict(atom='H 0 0 0; F 0.1 0.2 1.1', basis='sto-3g'),
    'LiH': dict(atom='Li 0 0 0; H 0.3 0 1.6', basis='6-31g'),
    'H3': dict(atom='H 0 0 0; H 0 0.3 1.0; H 0.8 0 0.1', basis='6-31g',
               spin=1),
    'He': dict(atom='He 0 0 0', basis='6-31g'),
    'H': dict(atom='H 0 0 0', basis='6-31g', spin=1),
    'Becart': dict(atom='Be 0 0 0; H 0 0 1.2', basis='6-31g*', cart=True,
                   spin=1),
    'H2O': dict(atom='O 0 0 0; H 0.7 0.6 0; H -0.7 0.6 0.1', basis='sto-3g'),
    'ghost': dict(atom='He 0 0 0; ghost-H 0 0.2 1.0', basis='6-31g'),
    'N2+': dict(atom='N 0 0 0; N 0 0 1.1', basis='sto-3g', charge=1, spin=1),
}
_mol, _cell = {}, {}


def molecule(name):
    if name not in _mol:
        from pyscf import gto
        mol = gto.M(verbose=0, **MOLS[name])
        n = mol.nao_nr()
        _mol[name] = (mol, mol.intor('int2e').reshape((n,)*4))
    return _mol[name]


CELLS = {
    'HeH': dict(atom='He 0 0 0; H 1.1 0.4 0.2', spin=1, shift=0.3, a=4.0),
    'H2': dict(atom='H 0.1 0 0; H 0 0.3 0.9', spin=0, shift=0.0, a=3.2),
    'He': dict(atom='He 0.2 0.1 0', spin=0, shift=-0.4, a=3.0,
               basis='gth-dzv'),
    'BH': dict(atom='B 0 0 0; H 0.3 0.2 1.2', spin=0, shift=0.2, a=3.8),
}
# used by name only
MORE = {
    'HeHdz': dict(atom='He 0 0 0; H 1.1 0.4 0.2', spin=1, shift=0.3, a=4.0,
                  basis='gth-dzv'),
}


def cell(name):
    if name not in _cell:
        from pyscf.pbc import gto
        d = CELLS[name] if name in CELLS else MORE[name]
        c = gto.Cell()
        c.a = np.eye(3)*d['a']
        c.a[0, 1] = d['shift']
        c.a[2, 0] = -0.5*d['shift']
        c.atom, c.spin, c.verbose = d['atom'], d['spin'], 0
        c.basis, c.pseudo = d.get('basis', 'gth-szv'), 'gth-pade'
        c.mesh = [9, 9, 9]
        # the diffuse-function warning is expected for these tiny cells
        with contextlib.redirect_stderr(io.StringIO()), \
                contextlib.redirect_stdout(io.StringIO()):
            c.build()
        _cell[name] = c
    return _cell[name]


def chem(eri, o1, o2, o3, o4):
    """(o1* o2 | o3* o4)."""
    x = np.tensordot(o1.conj(), eri, (0, 0))
    x = np.tensordot(x, o2, (1, 0))
    x = np.tensordot(x, o3.conj(), (1, 0))
    return np.tensordot(x, o4, (1, 0))


def chem_spin(eri, a, b, anti=False):
    """Spin-orbital integrals, index k has orbitals a[k] (alpha), b[k]."""
    C = [np.concatenate([x, y], axis=1) for x, y in zip(a, b)]
    s = [np.array([0]*x.shape[1] + [1]*y.shape[1]) for x, y in zip(a, b)]

    def one(i, j, k, l):
        return chem(eri, C[i], C[j], C[k], C[l]) * (
            (s[i][:, None] == s[j][None])[:, :, None, None] *
            (s[k][:, None] == s[l][None])[None, None])
    out = one(0, 1, 2, 3)
    if anti:
        out = out - one(0, 3, 2, 1).transpose(0, 3, 2, 1)
    return out


def phys_spin(eri, a, b, anti=False):
    """<12|34> = (13|24)."""
    p = [0, 2, 1, 3]
    return chem_spin(eri, [a[k] for k in p], [b[k] for k in p],
                     anti).transpose(0, 2, 1, 3)


def spinless(n):
    return np.zeros((n, 0))


def chem_anti(eri, o, anti=False):
    x = chem(eri, *o)
    if anti:
        x = x - chem(eri, o[0], o[3], o[2], o[1]).transpose(0, 3, 2, 1)
    return x


def phys(eri, o, anti=False):
    return chem_anti(eri, [o[0], o[2], o[1], o[3]],
                     anti).transpose(0, 2, 1, 3)


KSETS = ['gamma', 'shift', 'wrap', 'mp', 'perm', 'umklapp']


def kpoints(c, mesh, kind):
    """k-points of a mesh: Gamma-centred, shifted off all symmetric points,
    wrapped to both sides of Gamma, symmetric without Gamma, in another
    order, or moved by reciprocal lattice vectors."""
    k = c.make_kpts(mesh, wrap_around=kind == 'wrap',
                    with_gamma_point=kind != 'mp')
    if kind == 'shift':
        k = k + np.array([0.05, -0.12, 0.21])
    elif kind == 'perm':
        k = np.roll(c.make_kpts(mesh, wrap_around=True), 1, axis=0)[::-1]
    elif kind == 'umklapp':
        b = c.reciprocal_vectors()
        for j in range(1, len(k)):
            k[j] += b[j % 3] - b[(j + 1) % 3]
    return np.ascontiguousarray(k)
