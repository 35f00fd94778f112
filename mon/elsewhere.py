"""Run the registry in another interpreter and record the results.

usage: python -c '... elsewhere.main()' SPEC.json OUT.pkl
"""
import json
import os
import pickle
import sys
import traceback


def todo(spec):
    from . import harness, registry
    harness.load_library()
    if spec['kind'] == 'ints':
        return registry.integral_recipes(spec['seed'])
    if spec['kind'] == 'run':
        return registry.recipes(spec['seed'], tuple(spec['size']),
                                spec['cplx'], spec.get('prof'))
    import numpy as np
    from cqcpy import test_utils
    from checks import c21
    out = []
    for name in c21.GRID:
        def fn(*args, name=name):
            np.random.seed(spec['seed'])
            return getattr(test_utils, 'make_random_' + name)(*args)
        if hasattr(test_utils, 'make_random_' + name):
            out.append((name, fn, c21.spec(name, spec['d'])[0], {}))
    return out


def results(spec, shuffle=True):
    """name -> ('ok', snapshot) or ('raised', text)."""
    from . import harness, registry
    R = todo(spec)
    out = {}
    rng = harness.rng_of('elsewhere', spec['process']['calls'])
    for k in rng.permutation(len(R)) if shuffle else range(len(R)):
        name, fn, args, kw = R[k]
        try:
            out[name] = ('ok', registry.freeze(fn(*args, **kw)))
        except Exception:
            out[name] = ('raised', traceback.format_exc(limit=-3))
    return out


def main():
    import importlib
    import random
    spec = json.load(open(sys.argv[1]))
    if spec['process'].get('one') and hasattr(os, 'sched_setaffinity'):
        try:
            os.sched_setaffinity(0, {min(os.sched_getaffinity(0))})
        except OSError:
            pass
    from checks import c29
    import numpy as np
    bad = []
    for k in spec['process']['order']:
        try:
            importlib.import_module('cqcpy.' + c29.MODS[k])
        except BaseException as e:
            bad.append('%s: %s: %s' % (c29.MODS[k], type(e).__name__, e))
    np.random.seed(spec['process']['first'])
    random.seed(spec['process']['first'])
    out = results(spec)
    out['*imports'] = bad
    with open(sys.argv[2], 'wb') as fh:
        pickle.dump(out, fh)
