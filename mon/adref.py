"""Reference gradients of the CC Lagrangian by reverse-mode differentiation.

A few lines of tape on top of numpy.einsum.  The differentiated expression is
the T1-dressed Hamiltonian + CCD diagrams of mon.ref (written again for taped
values).  All functions are holomorphic, so complex data need no special care.
Gradient with respect to T gives the Lambda residuals, gradient with respect
to (f, v) gives the normal-ordered density matrices, for arbitrary sizes.
Validated against mon.fock by the self test.
"""
import numpy as np


class Var(object):
    __slots__ = ("x", "back", "g")

    def __init__(self, x, back=()):
        self.x = x
        self.back = back     # list of (parent Var, function of out-grad)
        self.g = None

    def __add__(self, o):
        return Var(self.x + o.x, [(self, lambda g: g), (o, lambda g: g)])

    def __sub__(self, o):
        return Var(self.x - o.x, [(self, lambda g: g), (o, lambda g: -g)])

    def __rmul__(self, c):
        return Var(c*self.x, [(self, lambda g: c*g)])

    def __getitem__(self, idx):
        shape = self.x.shape

        def b(g):
            z = np.zeros(shape, dtype=g.dtype)
            z[idx] = g
            return z
        return Var(self.x[idx], [(self, b)])

    def tr(self, *p):
        inv = tuple(np.argsort(p))
        return Var(self.x.transpose(p), [(self, lambda g: g.transpose(inv))])


def con(x):
    return Var(np.asarray(x))


def es(sub, *ops):
    ins, out = sub.split('->')
    ins = ins.split(',')
    y = np.einsum(sub, *[o.x for o in ops], optimize=True)
    back = []
    for k, o in enumerate(ops):
        if o.back is None:
            continue
        others = [q.x for j, q in enumerate(ops) if j != k]
        lab = [s for j, s in enumerate(ins) if j != k]

        def b(g, others=others, lab=lab, k=k, shape=o.x.shape):
            miss = [c for c in ins[k]
                    if c not in out and not any(c in s for s in lab)]
            assert not miss
            return np.einsum(','.join([out] + lab) + '->' + ins[k], g,
                             *others, optimize=True)
        back.append((o, b))
    return Var(np.asarray(y), back)


def const(x):
    v = Var(np.asarray(x))
    v.back = None
    return v


def backward(y):
    """Fill .g of every node reachable from scalar y."""
    order, seen = [], set()

    def visit(n):
        stack = [(n, iter(n.back or ()))]
        seen.add(id(n))
        while stack:
            node, it = stack[-1]
            for p, _ in it:
                if id(p) not in seen and p.back is not None:
                    seen.add(id(p))
                    stack.append((p, iter(p.back)))
                    break
            else:
                order.append(node)
                stack.pop()
    visit(y)
    y.g = np.ones_like(y.x)
    for n in reversed(order):
        if n.g is None:
            continue
        for p, b in n.back:
            if p.back is None:
                continue
            d = b(n.g)
            p.g = d if p.g is None else p.g + d


def antis(x):
    """x[a,b,i,j] -> signed sum over (a,b) and (i,j)."""
    x = x - x.tr(1, 0, 2, 3)
    return x - x.tr(0, 1, 3, 2)


def residuals(f, v, t1, t2, no, nv):
    n = no + nv
    o, u = slice(0, no), slice(no, None)
    U = const(np.eye(n)[:, no:])
    O = const(np.eye(n)[:, :no])
    I = const(np.eye(n))
    D = const(np.diag([1.0]*no + [0.0]*nv))
    h = f - es('piqj,ij->pq', v, D)
    X = I2(I) - es('pa,ai,qi->pq', U, t1, O)
    Y = I2(I) + es('pi,ai,qa->pq', O, t1, U)
    hd = es('ap,pq,bq->ab', X, h, Y)
    vd = es('pqrs,ap->aqrs', v, X)
    vd = es('aqrs,bq->abrs', vd, X)
    vd = es('abrs,cr->abcs', vd, Y)
    vd = es('abcs,ds->abcd', vd, Y)
    fd = hd + es('piqj,ij->pq', vd, D)
    foo, fov, fvv, fvo = fd[o, o], fd[o, u], fd[u, u], fd[u, o]
    oovv = vd[o, o, u, u]
    E = es('ia,ai->', f[o, u], t1) \
        + 0.25*es('ijab,abij->', v[o, o, u, u], t2) \
        + 0.5*es('ijab,ai,bj->', v[o, o, u, u], t1, t1)
    r1 = fvo + es('kc,acik->ai', fov, t2) \
        + 0.5*es('akcd,cdik->ai', vd[u, o, u, u], t2) \
        - 0.5*es('klic,ackl->ai', vd[o, o, o, u], t2)
    Fvv = fvv - 0.5*es('klcd,bdkl->bc', oovv, t2)
    Foo = foo + 0.5*es('klcd,cdjl->kj', oovv, t2)
    x = es('bc,acij->abij', Fvv, t2)
    y = es('kj,abik->abij', Foo, t2)
    r2 = vd[u, u, o, o] + x - x.tr(1, 0, 2, 3) - y + y.tr(0, 1, 3, 2)
    r2 = r2 + 0.5*es('abcd,cdij->abij', vd[u, u, u, u], t2)
    W = vd[o, o, o, o] + 0.5*es('klcd,cdij->klij', oovv, t2)
    r2 = r2 + 0.5*es('klij,abkl->abij', W, t2)
    W = vd[o, u, u, o] + 0.5*es('klcd,dblj->kbcj', oovv, t2)
    r2 = r2 + antis(es('kbcj,acik->abij', W, t2))
    return E, r1, r2


def I2(x):
    return Var(x.x, [])


def _perm4(x):
    x = x - x.transpose(1, 0, 2, 3)
    return x - x.transpose(0, 1, 3, 2)


def gradients(f, v, t1, t2, l1, l2, tfac=1.0, want="TL"):
    """Dictionary with residuals and gradients of the Lagrangian.

    lam1[i,a], lam2[i,j,a,b]: derivative with respect to the amplitudes;
    g1[q,p], g2[r,s,p,q]: normal-ordered densities (conventions of mon.fock).
    """
    nv, no = t1.shape
    F, V_, A, B = con(f), con(v), con(t1), con(t2)
    E, r1, r2 = residuals(F, V_, A, B, no, nv)
    lag = tfac*E + es('ia,ai->', const(l1), r1) \
        + 0.25*es('ijab,abij->', const(l2), r2)
    backward(lag)

    def g(x):
        return x.g if x.g is not None else np.zeros_like(x.x)
    out = dict(E=E.x, r1=r1.x, r2=r2.x, lag=lag.x)
    out['lam1'] = g(A).T
    out['lam2'] = _perm4(g(B)).transpose(2, 3, 0, 1)
    out['g1'] = g(F).T
    out['g2'] = _perm4(g(V_)).transpose(2, 3, 0, 1)
    return out
