"""C32: the example programs print the right energies."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import numpy as np
from mon import harness

ID = "C32"
RULE = ("every example program as shipped (crystals on a coarse "
        "integration mesh) and with other molecules, bases, geometries and "
        "k-point grids put in, each in an interpreter and a directory of its "
        "own; the energies in the output are compared with those of "
        "independent programs; distinct = (program, system)")
ASSUMPTIONS = ["the numbers with a decimal point at the end of the output "
               "are the energies the program reports",
               "closed-shell systems, as the programs assume; the crystal "
               "programs run on a coarse mesh, on which the reference is "
               "computed as well"]

HF = ('H 0 0 0; F 0 0 1.1', '631g')
H2 = ('H 0 0 0; H 0 0 0.77', '631g')
BE = ('Be 0 0 0', '631g')
SHIPPED = [('cis', HF), ('cis_H2', H2), ('cisd', HF), ('cisd_Be', BE)]
DIAMOND = '''C 0 0 0
C 1.685068664391 1.685068664391 1.685068664391'''
LATTICE = np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0]])*3.370137329


def other(rng):
    r = float(np.round(rng.uniform(0.6, 1.1), 3))
    pick = [('H 0 0 0; H 0 0 %s' % r, ['631g', 'sto3g', '6311g']),
            ('Li 0 0 0; H 0 0 %s' % (r + 0.6), ['sto3g', '631g']),
            ('H 0 0 0; F 0 0 %s' % (r/2 + 0.5), ['sto3g']),
            ('He 0 0 0; He 0.3 0 %s' % (r + 0.5), ['631g']),
            ('He 0 0 0', ['631g', 'ccpvdz']), ('Be 0 0 0', ['sto3g', '631g']),
            ('O 0 0 0; H 0 0.76 %s; H 0 -0.76 0.59' % (r/2 + 0.2), ['sto3g']),
            ('H 0 0 0; H 0 0 %s; H 0 2.1 0; H 0.2 2.1 0.9' % r,
             ['sto3g', '631g'])]
    a, bs = pick[int(rng.integers(len(pick)))]
    return a, str(rng.choice(bs))


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    q = tier == 'quick'
    out = [dict(prog=p, shipped=True, system=list(s)) for p, s in SHIPPED]
    for p, _ in SHIPPED:
        for _ in range(5 if q else 25):
            out.append(dict(prog=p, system=list(other(rng))))
    grids = [[1, 1, 2], [2, 1, 1], [1, 1, 3], [1, 2, 2]]
    for p in ('kmp2', 'kpt_hamiltonian'):
        out.append(dict(prog=p, grid=[2, 2, 2], mesh=7))
        for g in grids if not q else grids[2:]:
            out.append(dict(prog=p, grid=g, mesh=int(rng.choice([7, 9]))))
        if not q:
            for g in ([1, 2, 3], [1, 1, 4], [3, 1, 1]):
                out.append(dict(prog=p, grid=g, mesh=11))
    big = dict(kmp2=2, kpt_hamiltonian=1, cisd=1)
    out.sort(key=lambda c: -big.get(c['prog'], 0)*(
        100*(c.get('grid') == [2, 2, 2]) + 50*c.get('shipped', False)))
    return out


def required(tier):
    return ['program:' + p for p in ('cis', 'cis_H2', 'cisd', 'cisd_Be',
                                     'kmp2', 'kpt_hamiltonian')] + \
        ['as shipped:' + p for p, _ in SHIPPED]


def execute(case):
    """Exit status, output and names of files left behind."""
    d = tempfile.mkdtemp(prefix='verif-c32-')
    work = os.path.join(d, 'work')
    try:
        os.mkdir(work)
        spec = dict(case)
        if 'system' in case and not case.get('shipped'):
            spec['atom'], spec['basis'] = case['system']
        with open(os.path.join(d, 'spec.json'), 'w') as fh:
            json.dump(spec, fh)
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        prog = ("import sys; sys.path[:0] = [%r, %r]; "
                "from mon import example; example.main()"
                % (here, harness.REPO))
        r = subprocess.run(
            [sys.executable, '-B', '-W', 'ignore', '-c', prog,
             os.path.join(harness.REPO, 'examples', case['prog'] + '.py'),
             os.path.join(d, 'spec.json')],
            env=dict(os.environ, PYSCF_TMPDIR=d), cwd=work,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=270)
        return (r.returncode, r.stdout.decode(errors='replace'),
                r.stderr.decode(errors='replace'), os.listdir(work))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def numbers(text):
    return [float(x) for x in re.findall(
        r'(?<![A-Za-z0-9_.])[-+]?\d+\.\d*(?:[eE][-+]?\d+)?', text)]


def mean_field(case):
    from pyscf import gto, scf
    mol = gto.M(atom=case['system'][0], basis=case['system'][1], verbose=0)
    mf = scf.RHF(mol)
    mf.conv_tol, mf.conv_tol_grad = 1e-13, 1e-9
    mf.kernel()
    return mol, mf


def singles(mol, mf):
    """Singlet and triplet excitation energies with single excitations."""
    from pyscf import ao2mo
    n = mf.mo_coeff.shape[1]
    o = mol.nelectron//2
    I = ao2mo.restore(1, ao2mo.full(mol, mf.mo_coeff), n)
    v = n - o
    D = np.diag((mf.mo_energy[o:, None]
                 - mf.mo_energy[None, :o]).reshape(-1))
    K = I[o:, :o, o:, :o].reshape(v*o, v*o)
    J = np.einsum('abij->aibj', I[o:, o:, :o, :o]).reshape(v*o, v*o)
    return np.linalg.eigvalsh(D + 2*K - J), np.linalg.eigvalsh(D - J)


def doubles(mol, mf):
    """Correlation energy with single and double excitations."""
    from math import comb
    from pyscf import ao2mo, ci
    from pyscf.fci import cistring, direct_spin1
    n, o = mf.mo_coeff.shape[1], mol.nelectron//2
    size = comb(n, o)**2
    if size > 4000:
        c = ci.CISD(mf)
        c.verbose, c.conv_tol, c.max_cycle = 0, 1e-12, 200
        return c.kernel()[0]
    # the lowest level of the full Hamiltonian between the determinants
    h = mf.mo_coeff.T @ mf.get_hcore() @ mf.mo_coeff
    I = ao2mo.full(mol, mf.mo_coeff)
    at, H = direct_spin1.pspace(h, I, n, (o, o), np=size)
    up = np.array([bin(s >> o).count('1')
                   for s in cistring.make_strings(range(n), o)])
    keep = up[at//len(up)] + up[at % len(up)] <= 2
    return np.linalg.eigvalsh(H[keep][:, keep])[0] \
        + mol.energy_nuc() - mf.e_tot


def crystal(case):
    from pyscf.pbc import gto, scf, mp
    cell = gto.Cell()
    cell.atom, cell.a, cell.unit = DIAMOND, LATTICE, 'B'
    cell.basis, cell.pseudo, cell.verbose = 'gth-szv', 'gth-pade', 0
    cell.build()
    cell.mesh = [case['mesh']]*3
    kmf = scf.KRHF(cell, cell.make_kpts(case['grid']), exxdiv=None)
    kmf.conv_tol, kmf.conv_tol_grad = 1e-12, 1e-8
    e = kmf.kernel()
    if case['prog'] != 'kmp2':
        return e
    pt = mp.KMP2(kmf)
    pt.verbose = 0
    return pt.kernel()[0]


def run_case(case, m):
    p = case['prog']
    if not os.path.exists(os.path.join(harness.REPO, 'examples',
                                       p + '.py')):
        m.note('no program ' + p)
        return
    if 'system' in case:
        mol, mf = mean_field(case)
        levels = np.sort(np.concatenate(singles(mol, mf)))
        if levels[0] < 0.05:
            # the reference calculation inside the programs may fail
            m.note('unstable mean field')
            return
    m.calls[p] += 1
    status, text, err, left = execute(case)
    what = "%s with %s" % (p, case.get('system') or case['grid'])
    reg = what
    cov = ['program:' + p] + ['as shipped:' + p]*bool(case.get('shipped'))
    if not m.check('program ends', status == 0,
                   "%s ended with status %d: %s" % (what, status,
                                                    err[-400:]), regime=reg):
        return
    m.check('files left', not left, "%s left %s" % (what, left), regime=reg)
    got = numbers(text)

    def close(x, y, tol):
        return abs(x - y) <= tol
    if p.startswith('cis') and not p.startswith('cisd'):
        want = levels[:12] if p == 'cis' else levels
        tail = got[-len(want):]
        ok = len(tail) == len(want) and \
            np.max(np.abs(np.array(tail) - want)) <= 2e-6
        m.check('excitation energies', ok, "%s printed %s, expected %s"
                % (what, tail, list(np.round(want, 8))), regime=reg)
        if case.get('shipped') and p == 'cis_H2':
            ref = got[-2*len(want):-len(want)]
            m.check('reference energies', len(ref) == len(want) and
                    np.max(np.abs(np.array(ref) - want)) <= 1e-4,
                    "%s printed %s as reference, expected %s"
                    % (what, ref, list(np.round(want, 8))), regime=reg)
    elif p.startswith('cisd'):
        e = doubles(mol, mf)
        tail = got[-2:]
        m.check('correlation energy', len(tail) == 2 and
                close(tail[-1], e, 2e-6),
                "%s printed %s, expected %.10f" % (what, tail, e),
                regime=reg)
        m.check('mean-field energy', any(close(x, mf.e_tot, 2e-6)
                                         for x in got),
                "%s did not print the mean-field energy %.10f"
                % (what, mf.e_tot), regime=reg)
    else:
        e = crystal(case)
        tail = got[-3:] if p == 'kpt_hamiltonian' else got[-2:]
        hits = [x for x in tail if close(x, e, 1e-7)]
        rest = [x for x in tail if not close(x, e, 1e-7)]
        m.check('crystal energy', len(hits) == 2 and
                all(abs(x) < 1e-8 for x in rest),
                "%s printed %s, expected %.10f twice" % (what, tail, e),
                regime=reg)
    m.cover(*cov)
