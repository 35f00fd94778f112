"""Run in a fresh interpreter in which pyscf is not installed.

usage: python -m mon.nopyscf SPEC.json OUT.pkl

The finders on sys.meta_path are wrapped so that they do not know the package
(find_spec gives None), which is what an interpreter without it sees.
"""
import json
import pickle
import sys
import traceback

HIDE = 'pyscf'


class Hiding(object):
    def __init__(self, finder):
        self.finder = finder

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] == HIDE:
            return None
        return self.finder.find_spec(name, path, target)

    def __getattr__(self, name):
        return getattr(self.finder, name)


def results(spec):
    """name -> ('ok', snapshot) or ('raised', text)."""
    from . import harness, registry, lib
    harness.load_library()
    out = {}
    rng = harness.rng_of('nopyscf', spec['seed'])
    if spec['kind'] == 'factories':
        import numpy as np
        from cqcpy import test_utils
        from checks import c21
        todo = []
        for name in c21.GRID:
            args = c21.spec(name, spec['d'])[0]

            def fn(*args, name=name):
                np.random.seed(spec['seed'])
                return getattr(test_utils, 'make_random_' + name)(*args)
            if hasattr(test_utils, 'make_random_' + name):
                todo.append((name, fn, args, {}))
    else:
        todo = registry.recipes(spec['seed'], tuple(spec['size']),
                                spec['cplx'], spec.get('prof'))
    mode = spec.get('mode', 'c')
    for name, fn, args, kw in todo:
        if mode != 'c':
            memo = {}
            f = lambda x: lib.lay(rng, x, mode)
            args = registry.relay(args, f, memo)
            kw = registry.relay(kw, f, memo)
        try:
            out[name] = ('ok', registry.freeze(fn(*args, **kw)))
        except Exception:
            out[name] = ('raised', traceback.format_exc(limit=-3))
    return out


def main():
    spec = json.load(open(sys.argv[1]))
    assert HIDE not in sys.modules
    if spec.get('hide', True):
        sys.meta_path[:] = [Hiding(f) for f in sys.meta_path]
        try:
            import pyscf
            raise SystemExit("the package could not be hidden")
        except ImportError:
            pass
    out = {}
    if spec['kind'] == 'import':
        import importlib
        for mod in spec['modules']:
            try:
                importlib.import_module('cqcpy.' + mod)
                out[mod] = 'ok'
            except BaseException as e:
                out[mod] = '%s: %s' % (type(e).__name__, e)
    else:
        out = results(spec)
    out['*hidden'] = HIDE not in sys.modules
    import numpy
    out['*numpy'] = numpy.__version__
    with open(sys.argv[2], 'wb') as fh:
        pickle.dump(out, fh)


if __name__ == '__main__':
    main()
