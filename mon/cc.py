"""Shared drivers for the coupled-cluster checks."""
import numpy as np
from . import fock, adref, lib, gen, spin, harness


def so_oracle(f, v, t1, t2, l1=None, l2=None, tfac=1.0, n_fock=6, mon=None):
    """Reference values; operator algebra for small spaces, reverse-mode
    differentiation of the dressed Hamiltonian otherwise."""
    nv, no = t1.shape
    if l1 is None:
        l1, l2 = np.zeros((no, nv)), np.zeros((no, no, nv, nv))
    if no + nv <= n_fock:
        if mon is not None:
            mon.note('oracle: second quantisation')
        c = fock.CC(no, nv)
        E, r1, r2 = c.residuals(f, v, t1, t2)
        m1, m2 = c.lambda_residuals(f, v, t1, t2, l1, l2)
        g1, g2 = c.rdms(t1, t2, l1, l2, tfac)
        return dict(E=E, r1=r1, r2=r2, lam1=m1, lam2=m2, g1=g1, g2=g2)
    if mon is not None:
        mon.note('oracle: differentiated Lagrangian')
    if tfac == 1.0:
        return adref.gradients(f, v, t1, t2, l1, l2)
    a = adref.gradients(f, v, t1, t2, l1, l2)
    b = adref.gradients(f, v, t1, t2, l1, l2, tfac)
    a['g1'], a['g2'] = b['g1'], b['g2']
    return a


class SO(object):
    """Library-side objects for one spin-orbital problem."""

    def __init__(self, case, rng=None):
        self.case = case
        self.rng = rng or harness.rng_of(case['seed'])
        self.new()

    def new(self):
        c = self.case
        self.f, self.v, self.t1, self.t2, self.l1, self.l2 = lib.so_data(
            self.rng, c['no'], c['nv'], c['cplx'], c['herm'], c['kind'])
        self.load()

    def load(self):
        """Fresh library objects holding the current values."""
        c, r = self.case, self.rng
        lo = c['layout']
        no = c['no']
        L = (lambda x: lib.lay(r, x, lo)) if lo != 'slice' else np.copy
        self.F = lib.f_blocks(self.f.copy(), no, r, lo)
        self.I = lib.v_blocks(self.v.copy(), no, lib.N9, r, lo)
        self.T1, self.T2 = L(self.t1), L(self.t2)
        self.L1, self.L2 = L(self.l1), L(self.l2)

    def refill(self):
        """New values in the *same* array objects (a solver's second step)."""
        c = self.case
        F, I, old = self.F, self.I, (self.T1, self.T2, self.L1, self.L2)
        self.f, self.v, self.t1, self.t2, self.l1, self.l2 = lib.so_data(
            self.rng, c['no'], c['nv'], c['cplx'], c['herm'], c['kind'])
        no = c['no']
        o, u = slice(0, no), slice(no, None)
        for k, s in (('oo', (o, o)), ('ov', (o, u)), ('vo', (u, o)),
                     ('vv', (u, u))):
            getattr(F, k)[...] = self.f[s]
        for k in lib.N9:
            getattr(I, k)[...] = lib.cut(self.v, [no]*4, k)
        for x, y in zip(old, (self.t1, self.t2, self.l1, self.l2)):
            x[...] = y

    def mag(self):
        return lib.mag(self.f, self.v)


class UR(object):
    """Library-side objects for one unrestricted / restricted problem."""

    def __init__(self, case):
        self.case = case
        self.rng = harness.rng_of(case['seed'])
        self.r = case['mode'] == 'r'
        self.values()
        self.load()

    def values(self):
        c, rng = self.case, self.rng
        z, h, kind = c['cplx'], c['herm'], c['kind']
        if c['mode'] == 'u':
            d = self.d = spin.Dims(*c['dims'])
            s = 0.4/max(1.0, (d.n/6.0)**1.5)
            w = spin.random_u(rng, d, z, s, s, 1.0, 1.0, h)
            ts = ['t1a', 't1b', 't2aa', 't2ab', 't2bb']
            ls = ['l1a', 'l1b', 'l2aa', 'l2ab', 'l2bb']
            lib.tweak(rng, kind, [w['fa'], w['fb']],
                      [w['vaa'], w['vbb'], w['vab']],
                      [w[k] for k in ts], [w[k] for k in ls],
                      ([d.noa, d.nob], [[d.noa]*4, [d.nob]*4,
                                        [d.noa, d.nob, d.noa, d.nob]]))
            if kind == 'single':
                for k in ts + ls:
                    lib.single(rng, w[k])
            near = 1.0
            if 'eq' in c and not c['share']:
                # equal, nearly equal or opposite
                near = [1.0, 1.0, -1.0, 1 + 1e-5, 1 + 1e-6, 1 - 1e-7,
                        1 + 1e-9][int(rng.integers(7))]
            for g in c.get('eq', ()):
                self.equate(w, g, near)
            self.w = w
        else:
            no, nv = c['dims']
            d = self.d = spin.Dims(no, no, nv, nv)
            s = 0.4/max(1.0, (d.n/6.0)**1.5)
            w = spin.random_r(rng, no, nv, z, s, s, 1.0, 1.0, h)
            lib.tweak(rng, kind, [w['f']], [w['v']],
                      [w['t1'], w['t2']], [w['l1'], w['l2']],
                      ([no], [[no]*4]))
            self.w = w if self.r else spin.r_to_u(w)
        self.so = spin.to_so(self.d, spin.r_to_u(self.w) if self.r
                             else self.w)

    @staticmethod
    def equate(w, g, near=1.0):
        """Make one group of tensors the same for both spins."""
        pair = lambda x: 0.5*(x + x.transpose(1, 0, 3, 2))
        anti = lambda x: x - x.transpose(0, 1, 3, 2)
        if g == 'f':
            w['fb'] = w['fa']*near
        elif g in ('t1', 'l1'):
            w[g + 'b'] = w[g + 'a']*near
        elif g in ('v', 't2', 'l2'):
            w[g + 'bb'] = w[g + 'aa']*near
        elif g in ('vpair', 't2pair', 'l2pair'):
            w[g[:-4] + 'ab'] = pair(w[g[:-4] + 'ab'])
        elif g in ('vfull', 't2full', 'l2full'):
            k = g[:-4]
            w[k + 'ab'] = pair(w[k + 'ab'])
            w[k + 'aa'] = anti(w[k + 'ab'])
            w[k + 'bb'] = w[k + 'aa']*near

    def share(self):
        """Hand the same objects to both spins where the values agree."""
        eq = self.case.get('eq', ())
        if 'f' in eq:
            self.Fb = self.Fa
        if 'v' in eq or 'vfull' in eq:
            self.Ib = self.Ia
        if 't1' in eq:
            self.T1 = (self.T1[0], self.T1[0])
        if 'l1' in eq:
            self.L1 = (self.L1[0], self.L1[0])
        if 't2' in eq or 't2full' in eq:
            self.T2 = (self.T2[0], self.T2[1], self.T2[0])
        if 'l2' in eq or 'l2full' in eq:
            self.L2 = (self.L2[0], self.L2[1], self.L2[0])

    def load(self):
        c, r, d, w = self.case, self.rng, self.d, self.w
        lo = c['layout']
        if lo == 'alias':
            # the same array objects for both spins, as a closed-shell
            # caller would pass them
            self.Fa = self.Fb = lib.f_blocks(w['fa'].copy(), d.noa)
            self.Ia = self.Ib = lib.v_blocks(w['vaa'].copy(), d.noa)
            self.Iab = lib.v_blocks(w['vab'].copy(), d.noa, lib.N16)
            t1, t2 = w['t1a'].copy(), w['t2aa'].copy()
            l1, l2 = w['l1a'].copy(), w['l2aa'].copy()
            self.T1, self.T2 = (t1, t1), (t2, w['t2ab'].copy(), t2)
            self.L1, self.L2 = (l1, l1), (l2, w['l2ab'].copy(), l2)
            return
        L = (lambda x: lib.lay(r, x, lo)) if lo != 'slice' else np.copy
        if self.r:
            self.F = lib.f_blocks(w['f'].copy(), d.noa, r, lo)
            self.I = lib.v_blocks(w['v'].copy(), d.noa, lib.N16, r, lo)
            self.T1, self.T2 = L(w['t1']), L(w['t2'])
            self.L1, self.L2 = L(w['l1']), L(w['l2'])
            return
        self.Fa = lib.f_blocks(w['fa'].copy(), d.noa, r, lo)
        self.Fb = lib.f_blocks(w['fb'].copy(), d.nob, r, lo)
        self.Ia = lib.v_blocks(w['vaa'].copy(), d.noa, lib.N9, r, lo)
        self.Ib = lib.v_blocks(w['vbb'].copy(), d.nob, lib.N9, r, lo)
        self.Iab = lib.v_blocks(w['vab'].copy(),
                                [d.noa, d.nob, d.noa, d.nob], lib.N16, r, lo)
        self.T1 = (L(w['t1a']), L(w['t1b']))
        self.T2 = (L(w['t2aa']), L(w['t2ab']), L(w['t2bb']))
        self.L1 = (L(w['l1a']), L(w['l1b']))
        self.L2 = (L(w['l2aa']), L(w['l2ab']), L(w['l2bb']))
        if c.get('share'):
            self.share()

    def refill(self):
        c, d = self.case, self.d
        if c['layout'] == 'alias':
            self.values()
            self.load()
            return
        self.values()
        w = self.w

        def put_f(F, f, no):
            o, u = slice(0, no), slice(no, None)
            for k, s in (('oo', (o, o)), ('ov', (o, u)), ('vo', (u, o)),
                         ('vv', (u, u))):
                getattr(F, k)[...] = f[s]

        def put_v(I, v, ns, names):
            for k in names:
                getattr(I, k)[...] = lib.cut(v, ns, k)

        def put(xs, ys):
            for x, y in zip(xs, ys):
                x[...] = y
        if self.r:
            put_f(self.F, w['f'], d.noa)
            put_v(self.I, w['v'], [d.noa]*4, lib.N16)
            put((self.T1, self.T2, self.L1, self.L2),
                (w['t1'], w['t2'], w['l1'], w['l2']))
            return
        put_f(self.Fa, w['fa'], d.noa)
        put_f(self.Fb, w['fb'], d.nob)
        put_v(self.Ia, w['vaa'], [d.noa]*4, lib.N9)
        put_v(self.Ib, w['vbb'], [d.nob]*4, lib.N9)
        put_v(self.Iab, w['vab'], [d.noa, d.nob, d.noa, d.nob], lib.N16)
        put(self.T1 + self.T2 + self.L1 + self.L2,
            [w[k] for k in ('t1a', 't1b', 't2aa', 't2ab', 't2bb', 'l1a',
                            'l1b', 'l2aa', 'l2ab', 'l2bb')])

    def mag(self):
        return lib.mag(self.so[0], self.so[1])
