"""Cross-validate the reference models (no library code involved)."""
import sys
import numpy as np
from mon import fock, adref, ref, gen


def main():
    rng = np.random.default_rng(1)
    worst = 0.0
    for no, nv in [(1, 1), (2, 2), (3, 2), (2, 4), (1, 3), (3, 1), (0, 2)]:
        for c in (False, True):
            n = no + nv
            f = gen.full_f(rng, n, 1, c)
            v = gen.full_anti(rng, n, 1, c)
            t1, t2 = gen.t_amps(rng, no, nv, cplx=c)
            l1, l2 = gen.l_amps(rng, no, nv, cplx=c)
            C = fock.CC(no, nv)
            for tf in (1.0, 0.3):
                g = adref.gradients(f, v, t1, t2, l1, l2, tf)
                E, r1, r2 = C.residuals(f, v, t1, t2)
                e, q1, q2 = ref.ccsd_residuals(f, v, t1, t2)
                g1, g2 = C.rdms(t1, t2, l1, l2, tf)
                pairs = [(E, g['E']), (r1, g['r1']), (r2, g['r2']),
                         (E, e), (r1, q1), (r2, q2), (g1, g['g1']),
                         (g2, g['g2'])]
                if tf == 1.0:
                    m1, m2 = C.lambda_residuals(f, v, t1, t2, l1, l2)
                    pairs += [(m1, g['lam1']), (m2, g['lam2'])]
                for x, y in pairs:
                    if np.size(x):
                        worst = max(worst, float(np.max(np.abs(x - y))))
    print("oracle self test: largest disagreement %.2e" % worst)
    import pyscf
    return 0 if worst < 1e-12 else 1


sys.exit(main())
