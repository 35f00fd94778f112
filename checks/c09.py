"""C09: in-place update routines with a scale factor."""
import importlib
import inspect
import pkgutil
import sys
import numpy as np
from mon import workload, cc, lib, gen, harness, registry as rg

ID = "C09"
RULE = ("every routine of the equations module that takes a scale factor is "
        "discovered by signature and its arguments are built from the "
        "parameter names.  Step: one routine, one dimension set, dtype and "
        "accumulator layout; the routine is applied to zero accumulators "
        "with factor 1 and to random accumulators with several factors.  "
        "Comparison: accumulator change against factor times unit update.  "
        "In addition calls of such routines made by the residual and Lambda "
        "functions are recorded and repeated with other factors and "
        "accumulators, whatever their parameters are called; "
        "distinct = (routine, dimensions, dtype, layout, factor)")
ASSUMPTIONS = ["a scale factor is a parameter called fac or one whose "
               "default is the number one; accumulators are the arrays that "
               "change"]
FACS = [0.0, -1.0, 0.5, -2.5, 1e-6, 3.0, 2, -3, 0, 1, np.float64(0.75),
        1e4, -1e-3, 1e-13, -1e9, 1.0 + 1e-9, 1.0 - 1e-9, 0.25 - 0.5j, 1j]
ACC = ('T1', 'T2', 'L1', 'L2', 'T1a', 'T1b', 'T2aa', 'T2ab', 'T2bb', 'L1a',
       'L1b', 'L2aa', 'L2ab', 'L2bb')
INP = ('F', 'I', 'T1old', 'T2old', 'L1old', 'L2old', 'intor', 'Fa', 'Fb',
       'Ia', 'Ib', 'Iabab', 'T1aold', 'T1bold', 'Faa', 'Fbb', 'T1olds',
       'T2olds', 'L1olds', 'L2olds', 'T2aaold', 'T2abold', 'T2bbold',
       'L1aold', 'L1bold', 'L2aaold', 'L2abold', 'L2bbold')


def package():
    """All functions defined in the package, by module."""
    harness.load_library()
    import cqcpy
    out = {}
    for _, n, _ in pkgutil.iter_modules(cqcpy.__path__):
        try:
            mod = importlib.import_module('cqcpy.' + n)
        except ImportError:
            continue
        for k, f in vars(mod).items():
            if inspect.isfunction(f) and f.__module__ == mod.__name__:
                out[mod.__name__, k] = f
    return out


def factor(f):
    """Name of the scale factor of a function."""
    ps = inspect.signature(f).parameters
    if 'fac' in ps:
        return 'fac'
    for n, p in ps.items():
        if type(p.default) in (int, float) and p.default == 1:
            return n
    return None


def kernels():
    good, bad = [], []
    for (mod, n), f in sorted(package().items()):
        fac = factor(f)
        if fac is None:
            continue
        rest = [p for p in inspect.signature(f).parameters if p != fac]
        acc = [p for p in rest if p in ACC]
        ok = all(p in ACC + INP for p in rest) and acc \
            and rest[:len(acc)] == acc and len({p[0] for p in acc}) == 1
        (good if ok else bad).append((mod, n))
    return good, bad


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    good, _ = kernels()
    dims = [(3, 3), (4, 3), (3, 4), (2, 3), (3, 2), (2, 2), (1, 2), (1, 1),
            (3, 5), (0, 2), (2, 0), (6, 3), (3, 7)]
    reps = 4 if tier == 'quick' else 25
    out = []
    for rep in range(2 if tier == 'quick' else 8):
        for z in (False, True):
            for size in ((2, 2, 2, 2), (2, 1, 2, 3), (1, 2, 3, 2)):
                out.append(dict(kernel='recorded', size=list(size), cplx=z,
                                no=size[0], nv=size[2],
                                seed=int(rng.integers(2**31))))
    for mod, n in good:
        for rep in range(reps):
            for z in (False, True):
                for d in dims if rep or tier != 'quick' else dims[:4]:
                    out.append(dict(
                        kernel=n, module=mod, no=d[0], nv=d[1], cplx=z,
                        kind='normal' if rep < 2 else str(
                            rng.choice(lib.KINDS)),
                        herm=False, layout='c' if rep == 0 else 'mix',
                        seed=int(rng.integers(2**31))))
    return out


def required(tier):
    good, _ = kernels()
    return ["%s:%s" % (n, c) for _, n in good for c in 'zd'] + ['recorded']


def build(case, ps, name):
    """Inputs by name, shapes of accumulators by name."""
    from cqcpy import cc_equations as ce
    no, nv, z = case['no'], case['nv'], case['cplx']
    rng = harness.rng_of(case['seed'])
    unr = any(p in ('Ia', 'Ib', 'Iabab', 'T1a', 'L1a', 'T2aa', 'L2aa')
              for p in ps)
    if unr:
        c = dict(mode='u', dims=[no, max(no - 1, 1), nv, nv + 1], cplx=z,
                 kind=case['kind'], herm=False, layout='c', seed=case['seed'])
        p = cc.UR(c)
        w = p.w
        inp = dict(Fa=p.Fa, Fb=p.Fb, Ia=p.Ia, Ib=p.Ib, Iabab=p.Iab,
                   T1aold=p.T1[0], T1bold=p.T1[1], Faa=p.Fa, Fbb=p.Fb,
                   T1olds=p.T1, T2olds=p.T2, L1olds=p.L1, L2olds=p.L2,
                   T1old=p.T1, T2old=p.T2, L1old=p.L1, L2old=p.L2,
                   T2aaold=p.T2[0], T2abold=p.T2[1], T2bbold=p.T2[2],
                   L1aold=p.L1[0], L1bold=p.L1[1], L2aaold=p.L2[0],
                   L2abold=p.L2[1], L2bbold=p.L2[2])
        shp = dict(T1a=w['t1a'], T1b=w['t1b'], T2aa=w['t2aa'],
                   T2ab=w['t2ab'], T2bb=w['t2bb'], L1a=w['l1a'],
                   L1b=w['l1b'], L2aa=w['l2aa'], L2ab=w['l2ab'],
                   L2bb=w['l2bb'])
    else:
        # closed-shell routines need all sixteen blocks; giving them to the
        # spin-orbital ones as well is harmless
        v = gen.rnd(rng, (no + nv,)*4, 1.0, z)
        f = gen.rnd(rng, (no + nv,)*2, 1.0, z)
        anti = not ('_r' in name or name.startswith('r'))
        v = gen.antisym(v) if anti else v + v.transpose(1, 0, 3, 2)
        t1, t2 = gen.t_amps(rng, no, nv, cplx=z)
        l1, l2 = gen.l_amps(rng, no, nv, cplx=z)
        if not anti:
            t2 = gen.rnd(rng, t2.shape, 0.3, z)
            t2 = t2 + t2.transpose(1, 0, 3, 2)
            l2 = gen.rnd(rng, l2.shape, 0.3, z)
            l2 = l2 + l2.transpose(1, 0, 3, 2)
        lib.tweak(rng, case['kind'], [f], [v], [t1, t2], [l1, l2],
                  ([no], [[no]*4]))
        F, I = lib.f_blocks(f, no), lib.v_blocks(v, no, lib.N16)
        inp = dict(F=F, I=I, T1old=t1, T2old=t2, L1old=l1, L2old=l2)
        if 'intor' in ps:
            inp['intor'] = ce.lambda_int(F, I, t1, t2)
        shp = dict(T1=t1, T2=t2, L1=l1, L2=l2)
    acc = {k: gen.rnd(rng, x.shape, 1.0, z) for k, x in shp.items()
           if k in ps}
    return {k: x for k, x in inp.items() if k in ps}, acc, rng


def snap(inp):
    out = {}
    for k, x in inp.items():
        if isinstance(x, np.ndarray):
            out[k] = x.copy()
        elif isinstance(x, tuple):
            for j, y in enumerate(x):
                out['%s[%d]' % (k, j)] = y.copy()
        else:
            for a, y in rg.attrs(x).items():
                if isinstance(y, np.ndarray):
                    out[k + '.' + a] = y.copy()
    return out


def run_case(case, m):
    name = case['kernel']
    if name == 'recorded':
        return recorded(case, m)
    fn = package().get((case['module'], name))
    if fn is None:
        return
    fname = factor(fn)
    ps = list(inspect.signature(fn).parameters)
    inp, acc, rng = build(case, ps, name)
    if not all(p in inp or p in acc or p == fname for p in ps):
        m.note('unmapped ' + name)
        return
    before = snap(inp)
    returned = [None]

    def run(fac, base):
        A = {k: lib.lay(rng, x if base else np.zeros_like(x), case['layout'])
             for k, x in acc.items()}
        kw = {p: A[p] if p in A else inp[p] for p in ps if p != fname}
        if fac is not None:
            kw[fname] = fac
        r = returned[0] = m.call(name, fn, **kw)
        return None if r is harness.FAILED else A
    reg = "%dx%d %s %s %s" % (
        case['no'], case['nv'], 'z' if case['cplx'] else 'd', case['layout'],
        case['kind'])
    unit = run(1.0, False)
    if unit is None:
        return
    size = lib.mag(*unit.values())
    if returned[0] is not None and size == 0.0:
        # returns its result instead of adding it in place: not an in-place
        # routine
        m.note('returns its result: ' + name)
        m.cover(*['%s:%s' % (name, c) for c in workload.cov(case)])
        return
    if case['no'] > 2 and case['nv'] > 2 and case['kind'] == 'normal':
        m.check(name + ' acts', size > 1e-6, "factor one changed nothing",
                regime=reg)
    keys = sorted(acc)
    fs = [None] + [FACS[int(k)] for k in rng.permutation(len(FACS))
                   if case['cplx'] or not np.iscomplexobj(FACS[int(k)])][:5]
    for fac in fs:
        got = run(fac, True)
        if got is None:
            return
        val = 1.0 if fac is None else fac
        m.equal(name, [got[k] - acc[k] for k in keys],
                [val*unit[k] for k in keys], tol=1e-11,
                mag=max(1.0, size)*max(1.0, abs(val)), regime=reg + ' fac=%s' % fac,
                cover=workload.cov(case))
        # small factors need their own scale
    small = 10.0**int(rng.choice([-6, -9, -12, -20]))
    tiny = run(small, False)
    if tiny is not None:
        m.equal(name + ' scaled', [tiny[k]/small for k in keys],
                [unit[k] for k in keys], tol=1e-10, mag=max(size, 1e-2),
                regime=reg)
    after = snap(inp)
    same = [k for k in before if not np.array_equal(before[k], after[k])]
    m.check(name + ' inputs', not same, "changed its inputs %s" % same,
            regime=reg)


DRIVERS = ['ccd_simple', 'ccd_stanton', 'lccd_simple', 'ccd_ladder_simple',
           'ccd_ring_simple', 'ccsd_simple', 'ccsd_stanton', 'lccsd_simple',
           'ccd_lambda_simple', 'ccsd_lambda_simple', 'ccsd_lambda_opt',
           'ccsd_lambda_stanton', 'ccsd_lambda_opt_int', 'uccsd_stanton',
           'uccsd_lambda_opt', 'rccsd_stanton', 'rccsd_lambda_opt']


def record(fn, args, kw):
    """Calls of package functions with a scale factor made inside fn."""
    known = {f.__code__: (f, factor(f)) for f in package().values()}
    known = {c: x for c, x in known.items() if x[1]}
    calls = []

    def watch(frame, event, arg):
        if event == 'call' and frame.f_code in known:
            f, fac = known[frame.f_code]
            ps = inspect.signature(f).parameters
            loc = {p: frame.f_locals[p] for p in ps if p in frame.f_locals}
            if f is not fn and len(loc) == len(ps):
                calls.append((f, fac, rg.relay(loc, np.copy)))
    sys.setprofile(watch)
    try:
        fn(*args, **kw)
    finally:
        sys.setprofile(None)
    return calls


def recorded(case, m):
    rng = harness.rng_of('recorded', case['seed'])
    m.cover('recorded')
    done = set()
    for name, fn, args, kw in rg.recipes(case['seed'], tuple(case['size']),
                                         case['cplx']):
        name = name.split('#')[0]
        if name not in DRIVERS or fn is None:
            continue
        try:
            calls = record(fn, args, kw)
        except Exception:
            # judged by the other properties
            m.note('raised: ' + name)
            continue
        for f, fac, loc in calls:
            if (f, name) in done:
                continue
            done.add((f, name))
            repeat(m, rng, f, fac, loc, '%s in %s' % (f.__name__, name),
                   '%s %s' % (case['size'], 'z' if case['cplx'] else 'd'))


def repeat(m, rng, f, fac, loc, label, reg):
    def run(x, base=None):
        kw = rg.relay(loc, np.copy)
        if base is not None:
            for y, b in zip(rg.arrays(kw), base):
                if b is not None:
                    y[...] = b
        kw[fac] = x
        f(**kw)
        return rg.arrays(kw)
    start = rg.arrays(loc)
    try:
        out = [run(1.0), run(2.0)]
    except Exception as e:
        m.check('recorded ' + f.__name__, False, "%s raised %r when repeated"
                % (label, e), regime=reg)
        return
    acc = [k for k, x in enumerate(start) if any(
        not np.array_equal(o[k], x) for o in out)]
    if not acc:
        m.note('changes nothing: ' + label)
        return
    base = [gen.rnd(rng, x.shape, 1.0, np.iscomplexobj(x))
            if k in acc else None for k, x in enumerate(start)]
    zero = [np.zeros_like(x) if k in acc else None
            for k, x in enumerate(start)]
    unit = run(1.0, zero)
    size = max(1.0, lib.mag(*[unit[k] for k in acc]))
    for x in (0.0, -1.0, 0.5, 3.0):
        got = run(x, base)
        m.equal('recorded ' + f.__name__, [got[k] - base[k] for k in acc],
                [x*unit[k] for k in acc], tol=1e-11, mag=size*max(1, abs(x)),
                regime='%s %s fac=%s' % (label, reg, x))
