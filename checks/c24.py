"""C24: independence of the optional tensor backend."""
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
from mon import harness, registry as rg

ID = "C24"
RULE = ("fresh interpreters whose import system does not know the optional "
        "package: each module alone and all modules in both orders, then "
        "every public function on seeded arguments (size classes incl. zero "
        "dimensions, real/complex, memory layouts); all outputs compared "
        "with those of this process, where the package is installed; "
        "distinct = (function, size class, dtype, layout)")
ASSUMPTIONS = ["an interpreter whose finders return None for the package is "
               "indistinguishable from one where it is not installed",
               "agreement to 1e-11 relative to the largest element"]
MODS = ['cc_energy', 'cc_equations', 'ci_utils', 'ft_utils', 'ov_blocks',
        'spin_utils', 'test_utils', 'utils']
EXTRA = [(4, 3, 4, 3), (1, 5, 1, 4), (5, 1, 3, 1),
         (4, 3, 5, 6)]


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    q = tier == 'quick'
    out = [dict(kind='import', modules=[m]) for m in MODS]
    out += [dict(kind='import', modules=MODS),
            dict(kind='import', modules=MODS[::-1]),
            dict(kind='import', modules=['integrals'] + MODS)]
    for rep in range(1 if q else 10):
        for s in rg.SIZES + EXTRA:
            for z in (False, True):
                out.append(dict(kind='run', size=list(s), cplx=z,
                                mode='c' if rep % 2 else 'mix',
                                seed=int(rng.integers(10**6))))
        for prof in rg.PROFILES:
            out.append(dict(kind='run', mode='c', prof=prof, size=[
                [2, 2, 2, 2], [2, 2, 3, 3], [2, 1, 2, 3]][
                    int(rng.integers(3))], cplx=bool(rng.random() < 0.4),
                            seed=int(rng.integers(10**6))))
        for s in ((2, 2, 4, 4), (3, 3, 3, 3)):
            out.append(dict(kind='run', mode='c', prof='raw', size=list(s),
                            cplx=bool(rng.random() < 0.4),
                            seed=int(rng.integers(10**6))))
        for s in rg.SIZES[:7]:
            for z in ('real T', 'real L', 'real TL'):
                out.append(dict(kind='run', size=list(s), cplx=z, mode='c',
                                seed=int(rng.integers(10**6))))
    for rep in range(2 if q else 20):
        out.append(dict(kind='factories', d=[int(x) for x in
                                             rng.integers(0, 4, 8)],
                        seed=int(rng.integers(10**6))))
    return out


def required(tier):
    harness.load_library()
    out = ['import:' + m for m in MODS]
    for n in sorted(set(r[0].split('#')[0]
                        for r in rg.recipes(0, rg.SIZES[0], False))):
        out.append('without backend:' + n)
    return out + ['factories']


def child(spec):
    d = tempfile.mkdtemp(prefix='verif-c24-')
    try:
        with open(os.path.join(d, 'spec.json'), 'w') as fh:
            json.dump(spec, fh)
        env = dict(os.environ)
        env['PYTHONPATH'] = os.pathsep.join([
            os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
            harness.REPO])
        p = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-m',
                            'mon.nopyscf', os.path.join(d, 'spec.json'),
                            os.path.join(d, 'out.pkl')],
                           env=env, cwd=d, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=250)
        try:
            with open(os.path.join(d, 'out.pkl'), 'rb') as fh:
                return pickle.load(fh), ''
        except Exception:
            return None, p.stdout.decode(errors='replace')[-1500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_case(case, m):
    out, log = child(case)
    if out is None:
        raise RuntimeError("worker without the package failed:\n" + log)
    if not out.pop('*hidden'):
        raise RuntimeError("the package was importable in the worker")
    out.pop('*numpy')
    m.note('fresh interpreters without the package')
    if case['kind'] == 'import':
        for mod in case['modules']:
            if mod == 'integrals':
                continue
            m.check('import', out[mod] == 'ok',
                    "import of %s without the package: %s" % (mod, out[mod]),
                    regime='%s of %s' % (mod, ' '.join(case['modules'])),
                    cover=(mod,))
        return
    from mon import nopyscf
    here = nopyscf.results(case)
    reg = '%s %s %s' % ('.'.join(map(str, case.get('size', case.get('d')))),
                        {False: 'd', None: '', True: 'z'}.get(
                            case.get('cplx'), case.get('cplx')),
                        case.get('mode', ''))
    what = 'without backend' if case['kind'] == 'run' else 'factories'
    for name, (st, val) in here.items():
        short = name.split('#')[0]
        m.cover('library', short)
        if name not in out:
            m.violate(what, "%s has no result without the package" % name)
            continue
        st2, val2 = out[name]
        if st != 'ok' and isinstance(case.get('cplx'), str):
            # mixing real and complex operands is not promised everywhere
            m.note('mixed types not accepted: ' + short)
            continue
        if st != 'ok' or st2 != 'ok':
            m.check(what, st == st2, "%s: with the package %s, without %s\n%s"
                    % (name, st, st2, val2 if st2 != 'ok' else val),
                    regime=short + ' ' + reg, cover=(short,))
            if st == st2:
                m.violate(what, "%s raised:\n%s" % (name, val))
            continue
        d = rg.differ(val, val2, exact=False, tol=1e-11)
        m.check(what, d is None, "%s: %s" % (name, d),
                regime=short + ' ' + reg,
                cover=(short,) if case['kind'] == 'run' else ())
