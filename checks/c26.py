"""C26: calls leave nothing behind in the process."""
import contextlib
import decimal
import gc
import locale
import os
import shutil
import signal
import sys
import tempfile
import threading
import tracemalloc
import warnings
import weakref
import numpy as np
from mon import harness, registry as rg

ID = "C26"
RULE = ("every public function is called with fresh arguments of one size "
        "class and dtype.  Observed around each call: floating-point error "
        "settings, print options, warning filters, working directory, "
        "environment, recursion limit, signal handlers, decimal context, "
        "garbage collector, import path, threads, open file descriptors, "
        "files in a private scratch and working directory, bytes written to "
        "stdout and stderr, warnings issued.  Leak monitor: equal series of "
        "calls with fresh, different data until traced memory stops growing "
        "(at most 450 calls); for integrals, dropped results must die; series of "
        "calls with ever new strings, determinants, bases and numbers; calls "
        "with ever new dimensions.  Callers use unusual floating-point, "
        "printing and thread settings.  distinct = (observation, function, "
        "size class, dtype)")
ASSUMPTIONS = ["memory held by a cache with a bounded number of entries is "
               "not a leak",
               "writes are observed at the level of file descriptors"]
ARRAYS = np.lib.tracemalloc_domain    # array data only
NOISE = 24      # bytes per call, far below one retained array

# calls with ever new discrete data
FRESH = ['excite', 'raize', 'lower', 'equal', 'level', 'diff', 'strings',
         'gci_matrixel', 'ci_matrixel', 's_on_vec', 'sasb_on_vec',
         'gH_on_vec', 'thermal', 'thermal vector']


def cases(tier, seed):
    rng = harness.rng_of(ID, tier, seed)
    q = tier == 'quick'
    out = []
    for rep in range(1 if q else 6):
        for s in rg.SIZES:
            for z in (False, True):
                out.append(dict(kind='state', size=list(s), cplx=z,
                                seed=int(rng.integers(10**6))))
        for prof in rg.PROFILES:
            out.append(dict(kind='state', prof=prof, size=[
                [2, 2, 2, 2], [2, 2, 3, 3], [3, 2, 2, 3]][
                    int(rng.integers(3))], cplx=bool(rng.random() < 0.4),
                            seed=int(rng.integers(10**6))))
        out.append(dict(kind='state', size=[4, 4, 5, 5],
                        cplx=bool(rng.random() < 0.4),
                        seed=int(rng.integers(10**6))))
        out.append(dict(kind='state ints', seed=int(rng.integers(10**6))))
        for z in (False, True):
            for part in range(16):
                out.append(dict(kind='leak', size=[2, 1, 2, 3], cplx=z,
                                part=part, of=16, n=20 if q else 60,
                                seed=int(rng.integers(10**6))))
        for part in range(12):
            out.append(dict(kind='leak shapes', n=24 if q else 60, part=part,
                            of=12, seed=int(rng.integers(10**6))))
        for k in FRESH:
            out.append(dict(kind='leak fresh', what=k, n=60,
                            seed=int(rng.integers(10**6))))
        for part in range(12):
            out.append(dict(kind='leak ints', part=part, of=12,
                            n=6 if q else 15,
                            seed=int(rng.integers(10**6))))
    return out


def names():
    harness.load_library()
    a = [r[0].split('#')[0] for r in rg.recipes(0, rg.SIZES[0], False)]
    return sorted(set(a))


def required(tier):
    return ['%s:%s' % (w, n) for n in names()
            for w in ('settings', 'silent', 'files', 'memory')] + \
        ['settings:eri_blocks', 'memory:eri_blocks',
         'settings:get_solk_integrals', 'files:get_chem'] + \
        ['memory for new data:' + k for k in FRESH] + \
        ['memory for new shapes:' + k for k in (
            'ccsd_stanton', 'uccsd_stanton', 'rccsd_stanton', 'D2u',
            'uccsd_2rdm_abij', 'int_to_spin')]


def settings():
    """Process-wide settings a numerical routine has no business with."""
    po = np.get_printoptions()
    out = dict(errors=dict(np.geterr()), errcall=np.geterrcall(),
               bufsize=np.getbufsize(),
               printing={k: repr(v) for k, v in po.items()},
               warnings=[repr(f) for f in warnings.filters],
               cwd=os.getcwd(), environ=dict(os.environ),
               recursion=sys.getrecursionlimit(),
               path=list(sys.path), gc=(gc.isenabled(), gc.get_threshold()),
               switch=sys.getswitchinterval(),
               decimal=repr(decimal.getcontext()),
               signals={s: signal.getsignal(s) for s in
                        (signal.SIGINT, signal.SIGTERM, signal.SIGALRM,
                         signal.SIGFPE)},
               locale=locale.setlocale(locale.LC_ALL),
               trace=sys.gettrace(), profile=sys.getprofile(),
               hook=sys.excepthook, display=sys.displayhook,
               streams=(id(sys.stdout), id(sys.stderr)),
               # lazily created pool threads would show up here
               threads=threading.active_count())
    p = sys.modules.get('pyscf')
    if p is not None:
        out['engine threads'] = p.lib.num_threads()
        out['engine memory'] = p.lib.param.MAX_MEMORY
        out['engine einsum'] = getattr(p.lib, 'einsum', None)
    out['numpy'] = (np.einsum, np.dot, np.zeros, np.random.rand)
    return out


def fds():
    return len(os.listdir('/proc/self/fd'))


def listing(d):
    out = []
    for base, ds, fs in os.walk(d):
        out += [os.path.join(base, f) for f in fs]
    return sorted(out)


class Output(object):
    """Redirect file descriptors 1 and 2 to a file and measure it."""

    def __init__(self, d):
        self.f = open(os.path.join(d, 'out'), 'w+b')

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.old = os.dup(1), os.dup(2)
        os.dup2(self.f.fileno(), 1)
        os.dup2(self.f.fileno(), 2)
        return self

    def size(self):
        sys.stdout.flush()
        sys.stderr.flush()
        return os.fstat(self.f.fileno()).st_size

    def tail(self, a):
        self.f.seek(a)
        return self.f.read(200)

    def __exit__(self, *e):
        sys.stdout.flush()
        sys.stderr.flush()
        for k in (0, 1):
            os.dup2(self.old[k], k + 1)
            os.close(self.old[k])
        self.f.close()


def run_case(case, m):
    if case['kind'] == 'leak fresh':
        return fresh(case, m)
    if case['kind'] == 'leak shapes':
        return shapes(case, m)
    if case['kind'].startswith('leak'):
        return leak(case, m)
    rng = harness.rng_of(case['seed'], case['kind'])
    ints = case['kind'].endswith('ints')
    if ints:
        R, reg = rg.integral_recipes(case['seed']), 'integrals'
    else:
        R = rg.recipes(case['seed'], case['size'], case['cplx'],
                       case.get('prof'))
        reg = '%s %s' % ('.'.join(map(str, case['size'])),
                         'z' if case['cplx'] else 'd')
    top = tempfile.mkdtemp(prefix='verif-c26-')
    work, tmp, log = [os.path.join(top, k) for k in ('work', 'tmp', 'log')]
    for d in (work, tmp, log):
        os.mkdir(d)
    cwd, env = os.getcwd(), dict(os.environ)
    td = tempfile.tempdir
    found = []
    try:
        os.chdir(work)
        os.environ['TMPDIR'] = os.environ['PYSCF_TMPDIR'] = tmp
        tempfile.tempdir = tmp
        with Output(log) as out:
            for k in rng.permutation(len(R)):
                with unusual(rng, errors='prof' not in case):
                    found.append(watch(R[k], out, work, tmp))
                    bad = rg.spoil(rng, R[k][2:4])
                    if bad is not None and not ints:
                        found.append(watch(R[k][:2] + bad, out, work, tmp,
                                           True))
    finally:
        tempfile.tempdir = td
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
        shutil.rmtree(top, ignore_errors=True)
    for name, obs in found:
        short = name.split('#')[0]
        m.calls[short] += 1
        for what, d in obs.items():
            m.check(what, not d, "%s: %s" % (name, d),
                    regime=short + ' ' + reg, cover=(short,))


def quiet(*a):
    pass


@contextlib.contextmanager
def unusual(rng, errors=True):
    """Settings a caller may have chosen, different from the defaults.

    With the default floating-point settings invalid operations would warn.
    """
    p = sys.modules.get('pyscf')
    rec, swi = sys.getrecursionlimit(), sys.getswitchinterval()
    po, call = np.get_printoptions(), np.geterrcall()
    th = p.lib.num_threads() if p else None
    err = {k: str(rng.choice(['ignore', 'call'])) for k in
           ('under', 'over', 'divide', 'invalid')}
    if rng.random() < 0.2 or not errors:
        err = dict(divide='warn', over='warn', under='ignore', invalid='warn')
    old = np.seterr(**err)
    np.seterrcall(quiet)
    try:
        np.set_printoptions(precision=int(rng.integers(3, 12)),
                            linewidth=int(rng.integers(60, 120)))
        sys.setrecursionlimit(rec + int(rng.integers(0, 500)))
        sys.setswitchinterval(0.001*int(rng.integers(3, 9)))
        if p:
            p.lib.num_threads(int(rng.integers(1, 4)))
        yield
    finally:
        np.seterr(**old)
        np.seterrcall(call)
        np.set_printoptions(**po)
        sys.setrecursionlimit(rec)
        sys.setswitchinterval(swi)
        if p:
            p.lib.num_threads(th)


def watch(r, out, work, tmp, spoilt=False):
    name, fn, args, kw = r
    obs = {}
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        s0, o0, f0 = settings(), out.size(), fds()
        l0 = listing(work) + listing(tmp)
        failed, res = False, None
        try:
            res = fn(*args, **kw)
        except Exception:
            failed = True           # judged by other properties
        s1, o1 = settings(), out.size()
        del res
        f1 = fds()
        if f1 > f0:
            gc.collect()
            f1 = fds()
        l1 = listing(work) + listing(tmp)
    ch = [k for k in s0 if s0[k] != s1[k]]
    ch = ch and "changed %s" % [
        (k, s1[k]) if k != 'environ' else k for k in ch]
    files = (l0 != l1 and "files %s" % sorted(set(l1) ^ set(l0))) or \
        (f1 > f0 and "%d more open descriptors" % (f1 - f0))
    if failed or spoilt:
        if failed:
            obs['after failure'] = ch or files
        return name, obs
    obs['settings'], obs['files'] = ch, files
    obs['silent'] = (o1 != o0 and "wrote %r" % out.tail(o0)) or \
        (rec and "warned: %s" % sorted({str(w.message)[:100] for w in rec}))
    return name, obs


def leak(case, m):
    ints = case['kind'].endswith('ints')
    if ints:
        R, reg = rg.integral_recipes(case['seed']), 'integrals'
    else:
        R = rg.recipes(case['seed'], case['size'], case['cplx'])
        reg = '%s %s' % ('.'.join(map(str, case['size'])),
                         'z' if case['cplx'] else 'd')
    n = case['n']
    count = [0]

    def series(r):
        name, fn, args, kw = r
        for _ in range(n):
            count[0] += 1
            s = 1.0 + 1e-4*count[0]

            def other(x):
                return x*s if x.dtype.kind in 'fc' else x.copy()
            memo = {}
            a, k = rg.relay(args, other, memo), rg.relay(kw, other, memo)
            a = tuple(x*s if type(x) is float else x for x in a)
            fn(*a, **k)
            del a, k, memo
        gc.collect()
        return tracemalloc.get_traced_memory()[0]
    for k in range(case['part'], len(R), case['of']):
        name = R[k][0]
        short = name.split('#')[0]
        if ints:
            d = alive(R[k], n)
            if d is not None:
                m.calls[short] += n
                m.check('memory', d <= 2, "%s: %d of the results of %d calls "
                        "are still alive after they were dropped"
                        % (name, d, n), regime=short + ' ' + reg,
                        cover=(short,))
            continue
        tracemalloc.start(1)
        try:
            # go on while it grows: a bounded cache stops at some point
            seen = [series(R[k])]
            while len(seen) < 3 or (
                    len(seen)*n < 450 and
                    min(y - x for x, y in zip(seen, seen[1:])) > NOISE*n):
                seen.append(series(R[k]))
        except Exception:
            continue
        finally:
            tracemalloc.stop()
        m.calls[short] += len(seen)*n
        grow = min(y - x for x, y in zip(seen, seen[1:]))
        m.maxerr = max(m.maxerr, grow/(NOISE*n)) if grow <= NOISE*n \
            else m.maxerr
        m.check('memory', grow <= NOISE*n, "%s: traced memory grows by at "
                "least %d bytes in each of %d series of %d calls"
                % (name, grow, len(seen) - 1, n),
                regime=short + ' ' + reg, cover=(short,))


def alive(r, n):
    """How many of n dropped results the process still holds on to."""
    name, fn, args, kw = r
    refs = []
    for k in range(n):
        s = 1.0 + 1e-3*k

        def other(x):
            return x*s if x.dtype.kind in 'fc' else x.copy()
        memo = {}
        try:
            res = fn(*rg.relay(args, other, memo), **rg.relay(kw, other,
                                                              memo))
        except Exception:
            return None
        refs.append([weakref.ref(x) for x in rg.arrays(res)])
        del res, memo
    gc.collect()
    return sum(any(w() is not None for w in ws) for ws in refs)


def maker(what, rng):
    """A function that makes the next (function, arguments)."""
    from cqcpy import ci_utils as cu, ft_utils as ft
    bits = lambda n: rng.integers(0, 2, n)

    def det(n, ne=None):
        if ne is None:
            return cu.Dstring(n, bits(n))
        return cu.Dstring(n, rng.permutation([1]*ne + [0]*(n - ne)))
    if what == 'excite':
        def new():
            o = bits(60)
            i, a = [int(x) for x in rng.permutation(60)[:2]]
            if rng.random() < 0.5:
                i, a = [(0, 59), (59, 0)][int(rng.integers(2))]
            o[i], o[a] = 1, 0
            d = cu.Dstring(60, o)
            return lambda: d.excite(i, a)
    elif what in ('raize', 'lower'):
        def new():
            s = cu.Pstring(60, rng.integers(1, 9, 60))
            i = int(rng.integers(60))
            return lambda: getattr(s, what)(i)
    elif what == 'equal':
        def new():
            a = det(60)
            b = cu.Dstring(60, a.occ.copy())
            c, d = [cu.Pstring(60, rng.integers(0, 9, 60)) for _ in range(2)]
            return lambda: (a == b, c == d, c == c)
    elif what in ('level', 'diff'):
        f = getattr(cu, what)

        def new():
            a, b = det(60, 30), det(60, 30)
            return lambda: f(a, b)
    elif what == 'strings':
        def new():
            o = [int(x) for x in bits(20)]
            f = [cu.s_strings, cu.d_strings][int(rng.random() < 0.1)]
            return lambda: f(20, sum(o), occ=o)
    elif what in ('gci_matrixel', 'ci_matrixel'):
        n = 12
        h, V = rng.normal(size=(n, n)), rng.normal(size=(n,)*4)

        def near(d):
            for _ in range(int(rng.integers(0, 3))):
                o, v = np.nonzero(d.occ)[0], np.nonzero(d.occ == 0)[0]
                d = d.excite(int(rng.choice(o)), int(rng.choice(v)))[1]
            return d

        def new():
            x, y = det(n, 6), det(n, 5)
            x1, y1 = near(x), near(y)
            if what[0] == 'g':
                return lambda: cu.gci_matrixel(x, x1, h, V, 0.3)
            return lambda: cu.ci_matrixel(x, y, x1, y1, h, h, V, V, V, 0.3)
    elif what in ('s_on_vec', 'sasb_on_vec', 'gH_on_vec'):
        n = 14 if what != 'gH_on_vec' else 10
        h, V = rng.normal(size=(n, n)), rng.normal(size=(n,)*4)

        def new():
            k = [int(x) for x in rng.permutation(n)[:4]]
            v = rng.normal(size=4)
            b = [det(n, 5) for _ in range(4)]
            if what == 's_on_vec':
                return lambda: cu.s_on_vec(b, v, *k[:2])
            if what == 'gH_on_vec':
                return lambda: cu.gH_on_vec(b, v, h, V)
            b = [(x, det(n, 5)) for x in b]
            return lambda: cu.sasb_on_vec(b, v, *k)
    else:
        def new():
            b, m = float(rng.random()*9 + .1), float(rng.normal())
            e = float(rng.normal()*30)
            if what == 'thermal':
                return lambda: [f(b, e, m) for f in (
                    ft.fermi_function, ft.vfermi_function,
                    ft.grand_potential0, ft.dgrand_potential0)]
            x = rng.normal(size=int(rng.integers(1, 9)))*9
            return lambda: (ft.ff(b, x, m), ft.ffv(b, x, m), ft.GP0(b, x, m),
                            ft.dGP0(b, x, m), ft.uGP0(b, x, x + e, m))
    return new


def fresh(case, m):
    """Every call gets arguments that did not occur before."""
    what, n = case['what'], case['n']
    new = maker(what, harness.rng_of(case['seed'], what))
    new()()

    def series():
        todo = [new() for _ in range(n)]
        gc.collect()
        a = tracemalloc.get_traced_memory()[0]
        for f in todo:
            f()
        del f
        gc.collect()
        return tracemalloc.get_traced_memory()[0] - a
    tracemalloc.start(1)
    try:
        seen = [series()]
        while len(seen) < 4 or (len(seen)*n < 5000 and
                                min(seen[1:]) > NOISE*n):
            seen.append(series())
    except Exception as e:
        m.note('%s raised %s' % (what, type(e).__name__))
        return
    finally:
        tracemalloc.stop()
    m.calls[what] += len(seen)*n
    grow = min(seen[1:])
    m.check('memory for new data', grow <= NOISE*n, "%s: traced memory grows "
            "by at least %d bytes in each of %d series of %d calls with new "
            "arguments" % (what, grow, len(seen) - 1, n), regime=what,
            cover=(what,))


def shapes(case, m):
    """Nothing of the size of the results stays for every new shape."""
    rng = harness.rng_of('shapes', case['seed'])
    sizes = set()
    while len(sizes) < case['n']:
        s = tuple(int(x) for x in rng.integers(1, 7, 4))
        if sum(s) <= 14:
            sizes.add(s)
    sizes = [sorted(sizes)[k] for k in rng.permutation(len(sizes))]
    R = [rg.recipes(case['seed'], s, bool(rng.random() < 0.5))[
        case['part']::case['of']] for s in sizes]
    for one in zip(*R):
        name = one[0][0]
        kept, made, known = [0], [], set()
        tracemalloc.start(1)
        try:
            for _, fn, args, kw in one:
                # some functions take only part of the dimensions
                key = repr(args) if not rg.arrays(args) else tuple(
                    (x.shape, x.dtype.char) for x in rg.arrays(args))
                if key in known:
                    continue
                known.add(key)
                for _ in range(2):
                    res = fn(*args, **kw)
                    b = sum(x.nbytes for x in rg.arrays(res))
                    del res
                gc.collect(0)
                snap = tracemalloc.take_snapshot().filter_traces(
                    [tracemalloc.DomainFilter(True, ARRAYS)])
                # of everything allocated so far, what is left now
                kept.append(sum(t.size for t in snap.traces))
                made.append(b)
        except Exception:
            pass                    # judged by other properties
        finally:
            tracemalloc.stop()
        short = name.split('#')[0]
        m.calls[short] += 2*len(made)
        h = len(made)//3
        if sum(made) == 0 or h == 0:
            continue
        bad = all(kept[i + h] - kept[i] > 0.25*sum(made[i:i + h])
                  for i in (0, h, 2*h))
        m.check('memory for new shapes', not bad, "%s: %d bytes of arrays "
                "stay allocated after calls with %d different dimensions "
                "whose results had %d bytes"
                % (name, kept[-1], len(made), sum(made)),
                regime=short, cover=(short,))
