"""C16: completeness and grading of CI bases."""
import itertools
from mon import harness, ci

ID = "C16"
RULE = ("all (orbitals, alpha, beta) triples up to 8 (quick) or 9 "
        "(thorough) orbitals and larger random ones, all even general spaces "
        "up to 12-14 spin orbitals, random non-aufbau references for the "
        "string lists, up to 30 modes; compared as sets with all "
        "configurations of bounded rank, plus uniqueness, first element, "
        "order of ranks; distinct = (basis, sizes)")
ASSUMPTIONS = ["general bases: even number of spin orbitals, alpha half "
               "before beta half, the odd electron is alpha"]
UB = ['ucis_basis', 'ucisd_basis', 'ucisdt_basis', 'ucisdtq_basis']
GB = ['gcis_basis', 'gcisd_basis', 'gcisdt_basis', 'gcisdtq_basis']
SS = ['s_strings', 'd_strings', 't_strings', 'q_strings']


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    q = tier == 'quick'
    out = []
    top = 8 if q else 9
    for n in range(0, top + 1):
        for na in range(n + 1):
            for nb in range(n + 1):
                out.append(dict(kind='u', n=n, na=na, nb=nb))
    for nmo in range(0, 13 if q else 15, 2):
        for ne in range(nmo + 1):
            out.append(dict(kind='g', n=nmo, ne=ne))
    for n in list(range(0, 9)) + [15, 30]:
        out.append(dict(kind='v', n=n))
    for _ in range(1500 if q else 3000):
        n = int(rng.integers(0, 11))
        out.append(dict(kind='s', n=n, occ=[int(x) for x in
                                            rng.integers(0, 2, n)]))
    for _ in range(30 if q else 60):
        n = int(rng.integers(9, 12))
        out.append(dict(kind='u', n=n, na=int(rng.integers(0, n + 1)),
                        nb=int(rng.integers(0, n + 1)), top=3))
    out.sort(key=lambda c: -c['n'])
    return out


def required(tier):
    out = []
    for f in UB + GB + SS + ['vcis_basis', 'vcisd_basis', 's_pstrings',
                             'd_pstrings']:
        out.append(f + ' complete')
        if f not in SS + ['s_pstrings', 'd_pstrings']:
            out += [f + ' graded', f + ' reference first']
    return out + ['ucis_basis without reference',
                  'gcis_basis without reference']


def judge(m, f, keys, want, ref, rank, reg, ordered=True, gs=True):
    """keys: returned configurations; want: expected set."""
    S = set(keys)
    miss, extra = want - S, S - want
    m.check(f + ' complete', not miss and not extra and len(keys) == len(S),
            "%s %s: %d of %d configurations, missing %s, extra %s, "
            "duplicates %d" % (f, reg, len(keys), len(want),
                               sorted(miss)[:2], sorted(extra)[:2],
                               len(keys) - len(S)), regime=reg)
    if not ordered:
        return
    if gs:
        m.check(f + ' reference first', bool(keys) and keys[0] == ref,
                "%s %s: first element %s" % (f, reg, keys[:1]), regime=reg)
    r = [rank(k) for k in keys]
    m.check(f + ' graded', r == sorted(r), "%s %s: ranks %s" % (f, reg, r),
            regime=reg)


def run_case(case, m):
    from cqcpy import ci_utils as cu
    n, kind = case['n'], case['kind']

    def occs(d, f):
        """Occupation tuple of a string; must be 0/1 with matching length."""
        o = tuple(int(x) for x in d.occ)
        m.check('string shape', d.n == n and len(o) == n,
                "%s: string of length %d, n=%r, expected %d"
                % (f, len(o), d.n, n))
        return o
    if kind == 'u':
        na, nb = case['na'], case['nb']
        ra = tuple([1]*na + [0]*(n - na))
        rb = tuple([1]*nb + [0]*(n - nb))

        def rk(o, r):
            return sum(1 for x, y in zip(o, r) if x < y)
        A = [(o, rk(o, ra)) for o in itertools.product((0, 1), repeat=n)
             if sum(o) == na]
        B = [(o, rk(o, rb)) for o in itertools.product((0, 1), repeat=n)
             if sum(o) == nb]
        reg = 'n%d a%d b%d' % (n, na, nb)
        for k, f in enumerate(UB[:case.get('top', 4)], 1):
            got = m.call(f, getattr(cu, f, None), n, na, nb)
            if got is harness.FAILED:
                continue
            want = set((a, b) for a, x in A for b, y in B if x + y <= k)
            keys = [(occs(a, f), occs(b, f)) for a, b in got]
            judge(m, f, keys, want, (ra, rb),
                  lambda q: rk(q[0], ra) + rk(q[1], rb), reg)
        got = m.call('ucis_basis', cu.ucis_basis, n, na, nb, gs=False)
        if got is not harness.FAILED:
            keys = [(occs(a, f), occs(b, f)) for a, b in got]
            want = set((a, b) for a, x in A for b, y in B if x + y == 1)
            m.check('ucis_basis without reference', set(keys) == want and
                    len(keys) == len(want), "ucis without reference %s: %s"
                    % (reg, keys[:3]), regime=reg)
    elif kind == 'g':
        ne = case['ne']
        nb = ne//2
        na = ne - nb
        r = tuple([1]*na + [0]*(n//2 - na) + [1]*nb + [0]*(n//2 - nb))
        ref = ci.mask_of(r)
        reg = 'n%d e%d' % (n, ne)

        def rank(q):
            return ci.pop(ref & ~q)
        for k, f in enumerate(GB, 1):
            got = m.call(f, getattr(cu, f, None), n, ne)
            if got is harness.FAILED:
                continue
            want = set(x for kk in range(k + 1)
                       for x in ci.excitations(n, ref, kk))
            judge(m, f, [ci.mask_of(occs(d, f)) for d in got], want, ref,
                  rank, reg)
        got = m.call('gcis_basis', cu.gcis_basis, n, ne, gs=False)
        if got is not harness.FAILED:
            keys = [ci.mask_of(occs(d, 'gcis')) for d in got]
            want = set(ci.excitations(n, ref, 1))
            m.check('gcis_basis without reference', set(keys) == want and
                    len(keys) == len(want), "gcis without reference %s"
                    % reg, regime=reg)
    elif kind == 's':
        occ = case['occ']
        for given in (False, True):
            o = occ if given else [1]*sum(occ) + [0]*(n - sum(occ))
            ref = ci.mask_of(o)
            for k, f in enumerate(SS, 1):
                kw = dict(occ=list(o)) if given else {}
                got = m.call(f, getattr(cu, f, None), n, sum(o), **kw)
                if got is harness.FAILED:
                    continue
                judge(m, f, [ci.mask_of(occs(d, f)) for d in got],
                      set(ci.excitations(n, ref, k)), ref, None,
                      'n%d e%d %s' % (n, sum(o), given), ordered=False)
    else:
        one = set(tuple(int(x == p) for x in range(n)) for p in range(n))
        two = set(tuple(int(x == p) + int(x == q) for x in range(n))
                  for p in range(n) for q in range(n))
        z = tuple([0]*n)
        for f, want, gs in [('vcis_basis', {z} | one, True),
                            ('vcisd_basis', {z} | one | two, True),
                            ('s_pstrings', one, False),
                            ('d_pstrings', two, False)]:
            got = m.call(f, getattr(cu, f, None), n)
            if got is harness.FAILED:
                continue
            judge(m, f, [occs(d, f) for d in got], want, z, sum, 'n%d' % n,
                  ordered=gs)
