"""Case generators shared by the checks."""
import numpy as np
from . import harness, lib

SMALL = [(o, v) for o in range(0, 5) for v in range(0, 5) if o + v <= 7]
MEDIUM = [(5, 3), (3, 6), (2, 9), (6, 4), (4, 8), (1, 10), (8, 2), (10, 1),
          (5, 5), (7, 7), (3, 5), (5, 2)]
LARGE = [(2, 24), (24, 2), (6, 18), (12, 12), (16, 6), (10, 16), (1, 30),
         (30, 1), (8, 8), (9, 13), (11, 5)]

BEYOND = [(8, 8), (9, 8), (10, 7), (7, 10), (6, 12), (12, 6)]


def so_cases(tier, seed, tag, nsmall, nmed, nlarge=0, kinds=None):
    """Cases over (no, nv); every small dimension appears in both dtypes."""
    rng = harness.rng_of(tag, tier, seed)
    kinds = kinds or lib.KINDS
    out = []

    def add(no, nv, cplx, kind, layout):
        out.append(dict(no=no, nv=nv, cplx=bool(cplx), kind=kind,
                        layout=layout, herm=bool(rng.random() < 0.25),
                        seed=int(rng.integers(2**31))))
    for rep in range(nsmall):
        for (no, nv) in SMALL:
            for cplx in (0, 1):
                kind = 'normal' if rep == 0 else \
                    kinds[int(rng.integers(len(kinds)))]
                add(no, nv, cplx, kind, 'c' if rep == 0 else 'mix')
    for rep in range(nmed):
        for (no, nv) in MEDIUM:
            add(no, nv, rng.random() < 0.4,
                'normal' if rep == 0 else kinds[int(rng.integers(len(kinds)))],
                ['c', 'mix', 'slice'][int(rng.integers(3))])
    for rep in range(nlarge):
        for (no, nv) in LARGE:
            add(no, nv, rng.random() < 0.3,
                'normal' if rep == 0 else kinds[int(rng.integers(len(kinds)))],
                ['c', 'mix', 'slice'][int(rng.integers(3))])
    # every profile once at a size beyond the usual thresholds
    for kind in sorted(set(kinds)) if nlarge else ():
        no, nv = BEYOND[int(rng.integers(len(BEYOND)))]
        add(no, nv, rng.random() < 0.3, kind,
            ['c', 'mix', 'f', 'slice'][int(rng.integers(4))])
    # every profile at least once in both dtypes at a generic size
    for kind in sorted(set(kinds)):
        for cplx in (0, 1):
            add(2, 3, cplx, kind, 'mix')
            add(3, 2, cplx, kind, 'slice')
    # big steps first, so that the parallel pool ends evenly
    out.sort(key=lambda c: -(c['no'] + c['nv']))
    return out


def regime(case):
    return "%s %s %s %s%s" % (
        lib.dclass(case['no'], case['nv']), 'z' if case['cplx'] else 'd',
        case['kind'], case['layout'], ' herm' if case.get('herm') else '')


def cov(case):
    return ('z' if case['cplx'] else 'd',)


# all products of 0, 1, 2 and some threes
UDIMS = [(a, b, c, d) for a in range(3) for b in range(3) for c in range(3)
         for d in range(3) if a + b + c + d > 0] + \
    [(3, 1, 1, 2), (1, 3, 2, 1), (1, 2, 3, 1), (1, 0, 2, 3), (2, 2, 1, 3),
     (3, 2, 1, 1), (1, 1, 3, 2), (0, 3, 1, 2), (3, 0, 2, 1), (1, 1, 3, 3),
     (3, 3, 1, 1), (0, 2, 0, 3), (2, 0, 3, 0)]
EQS = ['f', 'v', 'vfull', 'vpair', 't1', 't2', 't2full', 't2pair', 'l1', 'l2',
       'l2full', 'l2pair']
EQDIMS = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)]
UMED = [(3, 2, 4, 5), (2, 3, 5, 4), (4, 1, 2, 5), (1, 4, 5, 2), (3, 3, 4, 4),
        (2, 0, 6, 8), (5, 4, 2, 3), (4, 5, 3, 2), (0, 3, 5, 4), (4, 4, 2, 2),
        (2, 2, 5, 5), (1, 1, 6, 6)]
ULARGE = [(5, 3, 7, 9), (3, 5, 9, 7), (6, 6, 5, 5), (2, 1, 12, 13),
          (8, 7, 3, 4), (4, 4, 8, 8), (10, 9, 2, 3), (9, 11, 1, 2),
          (2, 2, 10, 9), (1, 3, 11, 10)]
RDIMS = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2),
         (0, 2), (2, 0)]
RMED = [(3, 4), (4, 3), (2, 6), (5, 2), (1, 8), (4, 4)]
RLARGE = [(5, 8), (3, 11), (7, 5), (6, 6)]


def u_cases(tier, seed, tag, nsmall, nmed, nlarge=0, kinds=None,
            restricted=True):
    rng = harness.rng_of(tag, tier, seed)
    kinds = kinds or lib.KINDS
    out = []

    def add(mode, dims, cplx, kind, layout, **more):
        out.append(dict(mode=mode, dims=list(dims), cplx=bool(cplx),
                        kind=kind, layout=layout,
                        herm=bool(rng.random() < 0.25),
                        seed=int(rng.integers(2**31)), **more))

    def eqs():
        # single groups, all-but-one groups and random subsets
        k = int(rng.integers(len(EQS)))
        how = rng.random()
        if how < 0.1:
            return [g for g in EQS if 'full' in g or g in ('f', 't1', 'l1')]
        if how < 0.3:
            return [EQS[k]]
        if how < 0.5:
            return [g for g in EQS if not g.startswith(EQS[k][:2])]
        return [g for g in EQS if rng.random() < 0.45]

    def rk(rep):
        return 'normal' if rep == 0 else kinds[int(rng.integers(len(kinds)))]
    for rep in range(nsmall):
        for d in UDIMS:
            for cplx in (0, 1):
                add('u', d, cplx, rk(rep), 'c' if rep == 0 else 'mix')
        for d in RDIMS if restricted else ():
            for cplx in (0, 1):
                add('r', d, cplx, rk(rep), 'c' if rep == 0 else 'mix')
                if rep % 2 == 0:
                    add('ur', d, cplx, rk(rep), 'alias')
    # partly spin-symmetric problems, with shared or separate objects
    for rep in range(nsmall):
        for (o, v) in EQDIMS:
            for share in (True, False):
                add('u', (o, o, v, v), rng.random() < 0.5, rk(rep),
                    'c' if rep % 2 == 0 else 'mix', eq=eqs(), share=share)
    for rep in range(nmed):
        lo = ['c', 'mix', 'slice']
        for (o, v) in ((2, 4), (4, 2), (3, 3)):
            add('u', (o, o, v, v), rng.random() < 0.5, rk(rep),
                lo[int(rng.integers(3))], eq=eqs(),
                share=bool(rng.random() < 0.6))
        for d in UMED:
            add('u', d, rng.random() < 0.4, rk(rep), lo[int(rng.integers(3))])
        for d in RMED if restricted else ():
            add('r', d, rng.random() < 0.4, rk(rep), lo[int(rng.integers(3))])
    for rep in range(nlarge):
        for d in ULARGE:
            add('u', d, rng.random() < 0.3, rk(rep), lo[int(rng.integers(3))])
        for d in RLARGE if restricted else ():
            add('r', d, rng.random() < 0.3, rk(rep), lo[int(rng.integers(3))])
    for kind in sorted(set(kinds)) if nlarge else ():
        d = [(8, 8, 8, 8), (9, 8, 8, 9), (6, 7, 10, 9), (10, 9, 6, 7)][
            int(rng.integers(4))]
        add('u', d, rng.random() < 0.3, kind,
            ['c', 'mix', 'f'][int(rng.integers(3))])
        if restricted:
            add('r', BEYOND[int(rng.integers(len(BEYOND)))],
                rng.random() < 0.3, kind,
                ['c', 'mix', 'f'][int(rng.integers(3))])
    for kind in sorted(set(kinds)):
        for cplx in (0, 1):
            add('u', (2, 1, 1, 2), cplx, kind, 'mix')
            add('u', (1, 2, 2, 1), cplx, kind, 'slice')
            if restricted:
                add('r', (2, 2), cplx, kind, 'mix')
    out.sort(key=lambda c: -sum(c['dims'])*(2 if len(c['dims']) == 2 else 1))
    return out


def uregime(case):
    return "%s %s %s %s %s%s%s" % (
        case['mode'], lib.dclass(*case['dims']), 'z' if case['cplx'] else 'd',
        case['kind'], case['layout'], ' herm' if case.get('herm') else '',
        ' eq=%s%s' % ('+'.join(case['eq']), ' shared' if case['share'] else '')
        if 'eq' in case else '')
