"""C08: unrestricted and restricted density matrices."""
from mon import workload, cc, spin, lib

ID = "C08"
RULE = ("random amplitudes over alpha/beta dimension sets (unequal and zero "
        "included) and closed-shell sets x real/complex x profile x layout x "
        "reference weight; every spin block against the embedded exact "
        "spin-orbital density; distinct = (function, dimensions, dtype, "
        "profile, layout, weight class)")
ASSUMPTIONS = ["same-spin amplitudes antisymmetric; closed-shell amplitudes "
               "pair-symmetric"]
U = {'1rdm_ba': 'ba BA', '1rdm_ji': 'ji JI', '1rdm_ai': 'ai AI',
     '2rdm_ciab': 'ciab CIAB cIaB CiAb', '2rdm_jkai': 'jkai JKAI jKaI JkAi',
     '2rdm_cdab': 'cdab CDAB cDaB',
     '2rdm_bjai': 'bjai BJAI bJaI bJAi BjaI BjAi',
     '2rdm_klij': 'klij KLIJ kLiJ', '2rdm_bcai': 'bcai BCAI bCaI BcAi',
     '2rdm_kaij': 'kaij KAIJ kAiJ KaIj', '2rdm_abij': 'abij ABIJ aBiJ'}
R = {'1rdm_ba': 'ba', '1rdm_ji': 'ji', '1rdm_ai': 'ai', '2rdm_ciab': 'cIaB',
     '2rdm_jkai': 'jKaI', '2rdm_cdab': 'cDaB', '2rdm_bjai': 'bJaI',
     '2rdm_bjia': 'bJiA', '2rdm_klij': 'kLiJ', '2rdm_bcai': 'bCaI',
     '2rdm_kaij': 'kAiJ', '2rdm_abij': 'aBiJ'}


def cases(tier, seed):
    if tier == 'quick':
        cs = workload.u_cases(tier, seed, ID, 8, 5, 1)
    else:
        cs = workload.u_cases(tier, seed, ID, 12, 7, 2)
    for k, c in enumerate(cs):
        c['w'] = [1.0, 0.37, 0.0, -0.7, 1.0, 2.5, 1.0][k % 7]
    return cs


def required(tier):
    return ["%s%s:%s" % (p, f, c) for p, t in (('uccsd_', U), ('rccsd_', R))
            for f in t for c in 'zd'] + \
        ['uccsd_1rdm_ai:w', 'uccsd_2rdm_abij:w', 'rccsd_1rdm_ai:w']


def evaluate(p, m, case, step):
    from cqcpy import cc_equations as ce
    d = p.d
    reg = workload.uregime(case) + (' reused' if step else '')
    # the oracles subtract unit overlaps
    amp = max(lib.mag(*p.so[2:]), 1e-2)
    for w in ([1.0] if case['w'] == 1.0 else [1.0, case['w']]):
        o = cc.so_oracle(*p.so, tfac=w, mon=m)

        def block(lab):
            return (o['g1'] if len(lab) == 2
                    else o['g2'])[spin.block_index(d, lab)]
        table, pre = (R, 'rccsd_') if p.r else (U, 'uccsd_')
        for nm, labs in table.items():
            name = pre + nm
            kw = {}
            if w != 1.0:
                if p.r and nm[:4] == '1rdm':
                    kw = {'tfac': w}
                elif not p.r and nm in ('1rdm_ai', '2rdm_abij'):
                    kw = {'tfac': w}
                else:
                    continue
            want = [block(x) for x in labs.split()]
            fn = getattr(ce, name, None)
            if p.r:
                got = m.call(name, fn, p.T1, p.T2, p.L1, p.L2, **kw)
            else:
                got = m.call(name, fn, *(p.T1 + p.T2 + p.L1 + p.L2), **kw)
            m.equal(name, got, want, tol=1e-11, mag=amp,
                    regime=reg + (' w' if kw else ''),
                    cover=workload.cov(case) + (('w',) if kw else ()))


def run_case(case, m):
    p = cc.UR(case)
    evaluate(p, m, case, 0)
    p.refill()
    evaluate(p, m, case, 1)
