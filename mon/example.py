"""Run one of the shipped example programs, possibly for another system.

usage: python -c '... example.main()' PROGRAM SPEC.json
"""
import json
import runpy
import sys


def molecules(spec):
    from pyscf import gto
    build = gto.Mole.build

    def other(self, *args, **kw):
        kw.update(atom=spec['atom'], basis=spec['basis'])
        if len(args) > 2:
            raise RuntimeError("unexpected positional system")
        return build(self, *args, **kw)
    gto.Mole.build = other


def crystals(spec):
    from pyscf.pbc import gto
    build, grid = gto.Cell.build, gto.Cell.make_kpts

    def coarse(self, *args, **kw):
        r = build(self, *args, **kw)
        self.mesh = [spec['mesh']]*3
        return r

    def smaller(self, nks, *args, **kw):
        return grid(self, spec['grid'], *args, **kw)
    gto.Cell.build, gto.Cell.make_kpts = coarse, smaller


def main():
    spec = json.load(open(sys.argv[2]))
    if 'atom' in spec:
        molecules(spec)
    if 'grid' in spec:
        crystals(spec)
    sys.argv[:] = [sys.argv[1]]
    runpy.run_path(sys.argv[0], run_name='__main__')
