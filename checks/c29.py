"""C29: the same results in every process."""
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import numpy as np
from mon import harness, registry as rg

ID = "C29"
RULE = ("fresh interpreters that differ in hash seed, optimisation and isolation "
        "flags, numbers of threads and processors, working directory, locale, time zone, "
        "order of imports, global random state and order of calls; every "
        "public function on seeded arguments and every random factory after "
        "seeding; all outputs compared with those of this process; distinct "
        "= (function, size class, dtype, kind of process)")
ASSUMPTIONS = ["-OO is not used: the optional package itself needs its "
               "documentation strings",
               "agreement to 1e-11 relative to the largest element; random "
               "factories and bases exactly"]
MODS = ['cc_energy', 'cc_equations', 'ci_utils', 'ft_utils', 'ov_blocks',
        'spin_utils', 'test_utils', 'utils', 'integrals']
SIZES = rg.SIZES[:8] + [(3, 3, 3, 3)]


def process(rng, k):
    """Description of an unusual interpreter."""
    th = [1, 2, 3]
    return dict(
        hash=[str(int(rng.integers(1, 2**32 - 1))), 'random', '0'][k % 3],
        flags=[[], ['-O'], ['-I'], ['-X', 'utf8', '-O']][k % 4],
        omp=int(rng.choice(th)), blas=int(rng.choice(th)),
        one=k % 2 == 1,
        lang=['C', 'C.UTF-8', 'POSIX', ''][k % 5 % 4],
        tz=['UTC', 'Asia/Tokyo', ''][int(rng.integers(3))],
        order=[int(x) for x in rng.permutation(len(MODS))],
        first=int(rng.integers(10**6)), calls=int(rng.integers(10**6)))


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    q = tier == 'quick'
    out = []
    k = 0
    for rep in range(1 if q else 8):
        for s in SIZES:
            for z in (False, True):
                out.append(dict(kind='run', size=list(s), cplx=z,
                                seed=int(rng.integers(10**6)),
                                process=process(rng, k)))
                k += 1
        more = [((4, 4, 5, 5), None)] + [
            ((2, 2, 2, 2), p) for p in (
                'equal', 'shared', 'herm',
                rg.PROFILES[int(rng.integers(len(rg.PROFILES)))])]
        for s, p in more:
            out.append(dict(kind='run', size=list(s), prof=p,
                            cplx=bool(rng.random() < 0.4),
                            seed=int(rng.integers(10**6)),
                            process=process(rng, k)))
            k += 1
        for _ in range(2):
            out.append(dict(kind='ints', seed=int(rng.integers(10**6)),
                            process=process(rng, k)))
            k += 1
    for rep in range(6 if q else 40):
        out.append(dict(kind='factories', d=[int(x) for x in
                                             rng.integers(0, 5, 8)],
                        seed=int(rng.integers(10**6)),
                        process=process(rng, k)))
        k += 1
    return out


def required(tier):
    harness.load_library()
    out = []
    for n in sorted(set(r[0].split('#')[0]
                        for r in rg.recipes(0, rg.SIZES[0], False))):
        out.append('elsewhere:' + n)
    return out + ['factories', 'integrals', 'flag -O', 'flag -I']


def child(case):
    d = tempfile.mkdtemp(prefix='verif-c29-')
    p = case['process']
    try:
        with open(os.path.join(d, 'spec.json'), 'w') as fh:
            json.dump(case, fh)
        env = dict(os.environ)
        for v in ('OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
            env[v] = str(p['blas'])
        env.update(OMP_NUM_THREADS=str(p['omp']), PYTHONHASHSEED=p['hash'],
                   LC_ALL=p['lang'], TZ=p['tz'], PYSCF_TMPDIR=d)
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        # -I ignores PYTHONPATH, so the path is set by the program
        prog = ("import sys; sys.path[:0] = [%r, %r]; "
                "from mon import elsewhere; elsewhere.main()"
                % (here, harness.REPO))
        r = subprocess.run([sys.executable, '-B', '-W', 'ignore'] +
                           p['flags'] +
                           ['-c', prog, os.path.join(d, 'spec.json'),
                            os.path.join(d, 'out.pkl')],
                           env=env, cwd=d, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=250)
        try:
            with open(os.path.join(d, 'out.pkl'), 'rb') as fh:
                return pickle.load(fh), ''
        except Exception:
            return None, r.stdout.decode(errors='replace')[-1500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_case(case, m):
    from mon import elsewhere
    out, log = child(case)
    if out is None:
        raise RuntimeError("worker failed:\n" + log)
    p = case['process']
    m.note('fresh interpreters with ' + (' '.join(p['flags']) or 'no flags'))
    bad = out.pop('*imports')
    m.check('imports', not bad, "imports in the order %s: %s"
            % ([MODS[k] for k in p['order']], bad),
            regime=MODS[p['order'][0]])
    state = np.random.get_state()
    here = elsewhere.results(case, shuffle=False)
    np.random.set_state(state)
    reg = '%s %s %s' % ('.'.join(map(str, case.get(
        'size', case.get('d', ['ints'])))),
        'z' if case.get('cplx') else 'd', ' '.join(p['flags']))
    tol = 1e-13 if case['kind'] == 'factories' else 1e-11
    what = dict(run='elsewhere', factories='factories',
                ints='integrals')[case['kind']]
    for f in p['flags']:
        m.cover('flag ' + f)
    for name, (st, val) in here.items():
        short = name.split('#')[0]
        m.cover('library', short)
        st2, val2 = out.get(name, ('missing', ''))
        if st != 'ok' or st2 != 'ok':
            m.check(what, False, "%s: here %s, in the other process %s\n%s"
                    % (name, st, st2, val2 if st2 != 'ok' else val),
                    regime=short + ' ' + reg)
            continue
        d = rg.differ(val, val2, exact=False, tol=tol)
        m.check(what, d is None, "%s: %s (other process: %s)"
                % (name, d, p), regime=short + ' ' + reg,
                cover=(short,) if case['kind'] == 'run' else ())
