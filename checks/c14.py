"""C14: determinant strings and operator actions on CI vectors."""
import itertools
import numpy as np
from mon import harness, lib, gen, ci
from mon.fock import apply_string

ID = "C14"
RULE = ("strings: all strings of up to 5 orbitals with all index pairs, "
        "random walks of excitations on strings of up to 80 orbitals; "
        "operator actions: random and complete determinant bases, permuted "
        "or truncated, real/complex vectors, all kinds of index tuples "
        "(repeated indices included); comparison with bit-mask second "
        "quantisation; distinct = (operation, size, index relation, basis "
        "kind, dtype)")
ASSUMPTIONS = ["bases contain no duplicates"]
OPS = ['s_on_vec', 'sa_on_vec', 'sb_on_vec', 'd_on_vec', 'da_on_vec',
       'db_on_vec', 'sasb_on_vec']


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)

    def sd():
        return int(rng.integers(2**31))
    out = [dict(kind='all', n=n, seed=sd()) for n in range(0, 6)]
    k = 40 if tier == 'quick' else 150
    for _ in range(60*k):
        out.append(dict(kind='walk', n=int(rng.choice(
            [3, 6, 10, 20, 31, 32, 33, 63, 64, 65, 80])), seed=sd()))
    for _ in range(100*k):
        out.append(dict(kind='gvec', n=int(rng.integers(2, 8)), seed=sd(),
                        cplx=bool(rng.random() < 0.4)))
    for _ in range(160*k):
        out.append(dict(kind='uvec', na=int(rng.integers(1, 6)),
                        nb=int(rng.integers(1, 6)), seed=sd(),
                        cplx=bool(rng.random() < 0.4)))
    for _ in range(20*k):
        out.append(dict(kind='boson', n=int(rng.integers(1, 8)), seed=sd()))
    return out


def required(tier):
    return ['excite', 'excite impossible', 'string unchanged', 'walk',
            'equality', 'level', 'raise', 'lower', 'boson equality'] + \
        ["%s:%s" % (o, c) for o in OPS for c in 'zd']


def mk(rng, occ):
    """Occupations as list, tuple or arrays of several integer types."""
    k = int(rng.integers(4))
    if k == 0:
        return list(occ)
    if k == 1:
        return tuple(occ)
    return np.array(occ, dtype=[int, np.int32][k - 2])


def excite_check(m, ci_utils, occ, i, a, reg, rng):
    n = len(occ)
    D = m.call('Dstring', ci_utils.Dstring, n, mk(rng, occ))
    if D is harness.FAILED:
        return None
    r = m.call('excite', D.excite, i, a)
    if r is harness.FAILED:
        return None
    s, mm = apply_string(ci.mask_of(occ), [('+', a), ('-', i)])
    try:
        sg, new = r
    except Exception:
        m.check('excite', False, "returned %r" % (r,))
        return None
    if s == 0:
        m.check('excite impossible', new is None,
                "occ %s, %d->%d should be impossible, got %r"
                % (list(occ), i, a, sg), regime=reg)
        out = None
    else:
        ok = new is not None and sg == s and \
            [int(x) for x in new.occ] == ci.occ_of(mm, n) and new.n == n
        m.check('excite', ok, "occ %s, %d->%d gives %r %s, expected %d %s"
                % (list(occ), i, a, sg, None if new is None
                   else list(new.occ), s, ci.occ_of(mm, n)), regime=reg)
        out = (s, ci.occ_of(mm, n), new)
        if new is not None and ok:
            # the result must be independent of the original
            new2 = new.occ.copy()
            new.occ[...] = 1 - new.occ
            m.check('string unchanged', [int(x) for x in D.occ] == list(occ),
                    "result shares memory with the original", regime=reg)
            new.occ[...] = new2
    m.check('string unchanged', [int(x) for x in D.occ] == list(occ),
            "original string changed by excite(%d, %d)" % (i, a), regime=reg)
    return out


def run_case(case, m):
    from cqcpy import ci_utils as cu
    rng = harness.rng_of(case['seed'], case['kind'])
    kind = case['kind']
    if kind == 'all':
        n = case['n']
        occs = list(itertools.product((0, 1), repeat=n))
        for occ in occs:
            for i in range(n):
                for a in range(n):
                    excite_check(m, cu, occ, i, a,
                                 'n%d %s' % (n, 'i=a' if i == a else
                                             'i<a' if i < a else 'i>a'), rng)
        for o1 in occs:
            for o2 in occs if n < 5 else occs[::3]:
                A = m.call('Dstring', cu.Dstring, n, mk(rng, o1))
                B = m.call('Dstring', cu.Dstring, n, mk(rng, o2))
                if A is harness.FAILED or B is harness.FAILED:
                    return
                m.check('equality', (A == B) == (o1 == o2)
                        and (A != B) == (o1 != o2),
                        "%s == %s gives %r" % (o1, o2, A == B),
                        regime='n%d' % n)
                want = sum(abs(x - y) for x, y in zip(o1, o2))
                for f in ('level', 'diff'):
                    got = m.call(f, getattr(cu, f, None), A, B)
                    if got is not harness.FAILED:
                        m.check('level', got == want,
                                "%s(%s, %s) = %r" % (f, o1, o2, got),
                                regime='n%d %s' % (n, f))
        for k in range(3):
            try:
                cu.Dstring(n + 1, [0]*n)
                ok = False
            except Exception:
                ok = True
            m.check('length mismatch', ok, "accepted %d orbitals for n=%d"
                    % (n, n + 1))
        A, B = cu.Dstring(n, [0]*n), cu.Dstring(n + 1, [0]*(n + 1))
        m.check('equality', not (A == B), "different lengths compare equal",
                regime='lengths')
        return
    if kind == 'walk':
        n = case['n']
        occ = [int(x) for x in rng.integers(0, 2, n)]
        sign, mask = 1, ci.mask_of(occ)
        D = m.call('Dstring', cu.Dstring, n, list(occ))
        if D is harness.FAILED:
            return
        cur, tot = D, 1
        steps = 0
        for _ in range(60):
            i, a = int(rng.integers(n)), int(rng.integers(n))
            s, mm = apply_string(mask, [('+', a), ('-', i)])
            r = m.call('excite', cur.excite, i, a)
            if r is harness.FAILED:
                return
            if s == 0:
                if not m.check('walk', r[1] is None,
                               "impossible %d->%d accepted" % (i, a),
                               regime='n%d' % n):
                    return
                continue
            if not m.check('walk', r[1] is not None and r[0] == s and
                           ci.mask_of(r[1].occ) == mm,
                           "n=%d %s %d->%d: %r expected %d"
                           % (n, bin(mask), i, a, r[0], s),
                           regime='n%d' % n):
                return
            tot *= r[0]
            sign *= s
            mask, cur = mm, r[1]
            steps += 1
        m.check('walk', [int(x) for x in D.occ] == occ and tot == sign,
                "start string changed", regime='n%d' % n)
        return
    if kind == 'boson':
        n = case['n']
        occ = [int(x) for x in rng.integers(0, 4, n)]
        if rng.random() < 0.5:
            # highly excited modes, around the limits of narrow integers
            for p in range(n):
                if rng.random() < 0.5:
                    occ[p] = int(rng.choice([9, 126, 127, 128, 254, 255, 256,
                                             1000, 32767, 65535, 100000]))
        P = m.call('Pstring', cu.Pstring, n, mk(rng, occ))
        if P is harness.FAILED:
            return
        for p in range(n):
            u = m.call('raize', P.raize, p)
            if u is not harness.FAILED:
                w = list(occ)
                w[p] += 1
                m.check('raise', [int(x) for x in u.occ] == w,
                        "%s raised at %d: %s" % (occ, p, u.occ),
                        regime='n%d' % n)
                m.check('boson equality', (u == cu.Pstring(n, w))
                        and not (u == P), "equality of %s" % w)
                d = m.call('lower', u.lower, p)
                if d is not harness.FAILED:
                    m.check('lower', d is not None and d == P,
                            "raise then lower is not the identity",
                            regime='n%d' % n)
            d = m.call('lower', P.lower, p)
            if d is not harness.FAILED:
                if occ[p] == 0:
                    m.check('lower', d is None, "lowered the vacuum",
                            regime='vacuum')
                else:
                    w = list(occ)
                    w[p] -= 1
                    m.check('lower', d is not None and
                            [int(x) for x in d.occ] == w,
                            "%s lowered at %d" % (occ, p), regime='n%d' % n)
            m.check('string unchanged', [int(x) for x in P.occ] == occ,
                    "boson string changed")
        q = [int(x) for x in rng.integers(0, 4, n)]
        lv = m.call('level', getattr(cu, 'level', None), P,
                    cu.Pstring(n, list(q)))
        if lv is not harness.FAILED:
            m.check('level', lv == sum(abs(x - y) for x, y in zip(occ, q)),
                    "level of boson strings", regime='boson')
        return
    # ---- operator actions on vectors
    z = case['cplx']
    if kind == 'gvec':
        n = case['n']
        na, off = n, 0
        nel = int(rng.integers(0, n + 1))
        masks = [ci.mask_of(o) for o in itertools.product((0, 1), repeat=n)
                 if sum(o) == nel or rng.random() < 0.05]
    else:
        na, nb = case['na'], case['nb']
        off = na
        ea, eb = int(rng.integers(0, na + 1)), int(rng.integers(0, nb + 1))
        masks = [ci.mask_of(oa) | ci.mask_of(ob, na)
                 for oa in itertools.product((0, 1), repeat=na)
                 if sum(oa) == ea
                 for ob in itertools.product((0, 1), repeat=nb)
                 if sum(ob) == eb]
    order = rng.permutation(len(masks))
    how = ['full', 'permuted', 'truncated'][int(rng.integers(3))]
    if how != 'full':
        masks = [masks[k] for k in order]
    if how == 'truncated':
        masks = masks[:max(1, int(len(masks)*rng.uniform(0.2, 0.9)))]
    masks = masks[:60]
    if not masks:
        return
    index = {x: k for k, x in enumerate(masks)}
    vec = gen.rnd(rng, (len(masks),), 1.0, z)
    if rng.random() < 0.2:
        vec *= (rng.random(len(masks)) < 0.4)
    u = rng.random()
    if u < 0.1:
        vec = np.round(3*vec.real).astype(int)
        z = False
    elif u < 0.3:
        # coefficients of very different size
        vec *= 10.0**-rng.uniform(0, 40, len(masks))
    if kind == 'gvec':
        basis = [cu.Dstring(na, ci.occ_of(x, na)) for x in masks]
    else:
        basis = [(cu.Dstring(na, ci.occ_of(x, na)),
                  cu.Dstring(nb, ci.occ_of(x, nb, na))) for x in masks]

    def act(ops):
        out = np.zeros(len(masks), dtype=complex if z else float)
        for k, x in enumerate(masks):
            s, mm = apply_string(x, ops)
            if s and mm in index:
                out[index[mm]] += s*vec[k]
        return out

    def r(k):
        return int(rng.integers(k))
    todo = []
    if kind == 'gvec':
        for _ in range(4):
            i, j, a, b = r(na), r(na), r(na), r(na)
            todo.append(('s_on_vec', (i, a), [('+', a), ('-', i)]))
            todo.append(('d_on_vec', (i, j, a, b),
                         [('+', b), ('-', j), ('+', a), ('-', i)]))
    else:
        for _ in range(3):
            i, j, a, b = r(na), r(na), r(na), r(na)
            I, J, A, B = r(nb), r(nb), r(nb), r(nb)
            todo += [
                ('sa_on_vec', (i, a), [('+', a), ('-', i)]),
                ('sb_on_vec', (I, A), [('+', A + na), ('-', I + na)]),
                ('da_on_vec', (i, j, a, b),
                 [('+', b), ('-', j), ('+', a), ('-', i)]),
                ('db_on_vec', (I, J, A, B),
                 [('+', B + na), ('-', J + na), ('+', A + na),
                  ('-', I + na)]),
                ('sasb_on_vec', (i, J, a, B),
                 [('+', B + na), ('-', J + na), ('+', a), ('-', i)])]
    for name, idx, ops in todo:
        before = vec.copy()
        got = m.call(name, getattr(cu, name, None), basis,
                     lib.lay(rng, vec, ['c', 'stride', 'neg'][r(3)]), *idx)
        rel = 'rep' if len(set(idx)) < len(idx) else 'distinct'
        m.equal(name, got, act(ops), tol=1e-14, mag=1.0,
                regime="%s %s %s %s" % (how, rel, 'z' if z else 'd',
                                        len(masks) > 10),
                cover=('z' if z else 'd',))
        if got is not harness.FAILED and np.shape(got) == vec.shape:
            # every coefficient comes from one other, however small it is
            w = act(ops)
            k = int(np.argmax(np.abs(got - w) - 1e-14*np.abs(w)))
            m.check(name + ' elementwise',
                    abs(got[k] - w[k]) <= 1e-14*abs(w[k]),
                    "coefficient %d is %r, expected %r" % (k, got[k], w[k]),
                    regime=how)
        assert np.array_equal(before, vec)
