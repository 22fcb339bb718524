"""
What a harness sees.

A harness is one function `f(env, ...)`.  Run symbolically it explores the
code under test for every value of its variables; run concretely, with a
model found by the solver, it is the replay of that counterexample (or of one
explored path) against the real code with real NumPy and real threads.
"""
import importlib
import os
import re
import sys
import zlib
from fractions import Fraction

import numpy as np

from . import term as T
from . import cells as C
from . import arr as A
from . import engine as E
from . import sched
from .engine import (Sym, SymBool, SymInt, SymReal, Unsupported, mk, mkbool,
                     num_term, to_bool_term, eng)
from .seq import SymRange, is_int
from .spec import Spec


class RealFailed(Exception):
    """A check failed while running the real code."""


class Skip(Exception):
    """The model does not satisfy the harness's assumptions."""


class Unexpected(object):
    """The code under test raised something the harness did not ask for."""


class Env(object):
    def __init__(self, sym, package, model=None, seed=0, opts=None):
        self.sym = sym
        self.pkg = package
        self.B = package.biggus
        self.I = package.init
        self.np = np
        if sym:
            from . import npshim
            self.xp = npshim.NP     # NumPy, on model arrays
        else:
            self.xp = np
        self.model = model or {}
        self.seed = seed
        self.opts = opts or {}
        self.apps = {}
        for name, idx, v in self.model.get('@apps', []):
            self.apps[(name, tuple(idx))] = v
        self.reached = set()
        self.nchecks = 0
        self.skipped = False
        self.desc = []
        if sym:
            eng().formats = [] if self.opts.get('formats') else None

    # -------------------------------------------------------- variables
    def int(self, name, lo=None, hi=None):
        if self.sym:
            return mk(eng().new_var(name, 'I', lo, hi))
        v = self.model.get(name)
        if v is None:
            v = 0
            if lo is not None and v < lo:
                v = lo
            if hi is not None and v > hi:
                v = hi
        return int(v)

    def bool(self, name):
        if self.sym:
            return mkbool(eng().new_var(name, 'B'))
        return bool(self.model.get(name, False))

    def flag(self, name):
        """A boolean which is decided (forked on) at once."""
        return bool(self.bool(name))

    def small(self, name, lo, hi):
        """An integer whose values are all followed one by one."""
        v = self.int('%s<%d>' % (name, hi - lo), lo, hi)
        return int(v)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.small(name, 0, len(options) - 1)]

    def real(self, name, lo=None, hi=None):
        if self.sym:
            return mk(eng().new_var(name, 'R', lo, hi))
        return Fraction(self.model.get(name, 0))

    def number_text(self, text):
        """
        The number which this text states, as (value, the number of decimals
        it is rounded to or None for all of it).

        """
        if not self.sym or '\x02' not in text:
            m = re.match(r'^[0-9][0-9,]*(?:[.]([0-9]+))?$', text)
            if m is None:
                return None
            return Fraction(text.replace(',', '')), None
        m = re.match('^\x02([0-9]+)\x03$', text)
        if m is None:
            return None
        x, spec = eng().formats[int(m.group(1))]
        if spec in ('', 'd', ',', ',d', 'n'):
            return x, None
        m = re.match(r'^0?,?[.]([0-9]+)[fF]$', spec)
        if m is None:
            raise Unsupported('number formatted as %r' % spec)
        return x, int(m.group(1))

    def assume(self, cond):
        if self.sym:
            eng().assume(cond)
        elif not cond:
            raise Skip()

    def all(self, conds):
        r = True
        for c in conds:
            r = C.b_and(r, c)
        return r

    def any(self, conds):
        r = False
        for c in conds:
            r = C.b_or(r, c)
        return r

    def not_(self, c):
        return C.b_not(c)

    # ------------------------------------------------------- assertions
    def check(self, cond, msg, kind='value'):
        self.nchecks += 1
        self.reached.add(msg.split(':')[0])
        if self.sym:
            eng().check(cond, msg, kind)
        elif not cond:
            raise RealFailed(msg)

    def fail(self, msg, kind='value'):
        self.check(False, msg, kind)

    def reach(self, what):
        self.reached.add(what)

    # ----------------------------------------------------------- schedules
    def schedule(self, bound=1, points=(), max_points=400):
        """
        From here on, explore every schedule which deviates from the
        canonical one at no more than `bound` places.
        """
        if self.sym:
            return sched.start(sched.SymbolicPolicy(bound, points,
                                                    max_points))
        if self.opts.get('controlled'):
            return sched.start(sched.ModelPolicy(self.model, bound, points,
                                                 max_points))
        return None

    def priorities(self, ends=False):
        """
        From here on, explore every schedule in which always the thread of
        the highest priority goes on, for every order of the threads (with
        `ends`, every one in which a thread is before or after all those
        which were started before it).
        """
        if self.sym:
            policy = sched.SymbolicPriorities()
        elif self.opts.get('controlled'):
            policy = sched.ModelPriorities(self.model)
        else:
            return None
        policy.ends = ends
        return sched.start(policy, max_steps=10 ** 6)

    def note(self, text):
        """Count something for the evidence."""
        if self.sym:
            E.eng().note(text)

    def module(self, name):
        """Another module of the package."""
        if self.sym:
            return self.pkg.load(name)
        return importlib.import_module(name)

    # ----------------------------------------------------- code under test
    def attempt(self, fn):
        """('ok', value), ('err', exception) or ('hang', why)."""
        try:
            return 'ok', fn()
        except (RealFailed, Skip):
            raise
        except sched.Deadlock as e:
            return 'hang', e
        except Exception as e:
            if self.skipped:
                # (In a worker thread.)
                raise Skip()
            return 'err', e

    def do(self, fn, what):
        """The value of fn(); anything it raises is a violation."""
        k, v = self.attempt(fn)
        if k == 'hang':
            self.fail('%s: does not terminate (%s)' % (what, v), 'hang')
        if k == 'err':
            self.fail('%s: raised %s: %s' % (what, type(v).__name__,
                                             brief(v)), 'raised')
        if k != 'ok':
            # (Only reached when the solver has no answer.)
            raise Unsupported('unknown whether this path exists')
        return v

    def raises(self, exc, fn, what):
        k, v = self.attempt(fn)
        self.check(k == 'err' and isinstance(v, exc),
                   '%s: %s' % (what, 'no error' if k == 'ok' else
                               ('raised %s: %s%s' % (
                                   type(v).__name__, brief(v),
                                   where(v) if self.sym else ''))))

    def set_chunk(self, n):
        """Set the chunk-size limit (in elements)."""
        self.I.MAX_CHUNK_SIZE = n

    # ------------------------------------------------------------- data
    def data(self, name, shape, dtype, masked=None, fill=None,
             generic=None):
        """
        A spec of arbitrary contents.

        masked: None (plain), 'mask' (arbitrary mask) or 'nomask'.
        generic: contents as an unknown function of the position rather
        than one variable per element (always so for symbolic shapes).

        """
        dtype = np.dtype(dtype)
        shape = tuple(shape)
        if generic is None:
            generic = any(isinstance(n, SymInt) for n in shape) or \
                self.opts.get('generic', False)
        if not self.sym:
            fn = self._real_data(name, dtype, generic)
            mfn = self._real_mask(name, generic)
        elif generic:
            fn = _generic('src:' + name, dtype)
            mfn = _generic('mask:' + name, np.dtype(bool))
        else:
            fn = self._vars(name, shape, dtype)
            mfn = self._vars(name + '.mask', shape, np.dtype(bool)) \
                if masked == 'mask' else None
        mask = None
        if masked == 'mask':
            mask = mfn
        elif masked == 'nomask':
            mask = 'nomask'
        s = Spec(shape, dtype, fn, None, fill)
        s.nomask = masked == 'nomask'
        if masked == 'mask':
            s.mask = mask
        elif masked == 'nomask':
            s.mask = lambda i: False
        return s

    def _vars(self, name, shape, dtype):
        cells = {}
        for idx in np.ndindex(*shape):
            nm = '%s[%s]' % (name, ','.join(map(str, idx)))
            if dtype.kind == 'b':
                cells[idx] = mkbool(eng().new_var(nm, 'B'))
            elif dtype.kind in 'iu':
                lo, hi = C.int_range(dtype)
                cells[idx] = mk(eng().new_var(nm, 'I', lo, hi))
            else:
                cells[idx] = mk(eng().new_var(nm, 'R'))

        def fn(idx):
            if not any(isinstance(i, SymInt) for i in idx):
                return cells[tuple(int(i) for i in idx)]
            r = None
            for k in sorted(cells, reverse=True):
                if r is None:
                    r = cells[k]
                else:
                    c = True
                    for a, b in zip(idx, k):
                        c = C.b_and(c, a == b)
                    r = C.select(c, cells[k], r)
            return r
        return fn

    def _real_data(self, name, dtype, generic):
        off = zlib.crc32(name.encode()) % 17 * 1000

        def fn(idx):
            idx = tuple(int(i) for i in idx)
            v = self.apps.get(('src:' + name, idx))
            if v is None:
                v = self.model.get('%s[%s]' % (name,
                                               ','.join(map(str, idx))))
            if v is None:
                v = off
                for i in idx:
                    v = v * 53 + i + 1
                if self.seed:
                    v = zlib.crc32(repr((self.seed, name, idx)).encode()) \
                        % 1000 - 300
            if dtype.kind == 'b':
                if isinstance(v, bool):
                    return v
                return bool(zlib.crc32(repr((self.seed, name, idx))
                                       .encode()) & 4)
            if dtype.kind in 'iu':
                lo, hi = C.int_range(dtype)
                return (int(v) - lo) % (hi - lo + 1) + lo
            return C.from_py(float(v), dtype)
        return fn

    def _real_mask(self, name, generic):
        def fn(idx):
            idx = tuple(int(i) for i in idx)
            v = self.apps.get(('mask:' + name, idx))
            if v is None:
                v = self.model.get('%s.mask[%s]' % (
                    name, ','.join(map(str, idx))))
            if v is None and not generic:
                v = False
            if v is None:
                v = zlib.crc32(repr((self.seed, 'm', name, idx))
                               .encode()) % 3 == 0
            return bool(v)
        return fn

    def array(self, spec):
        """The NumPy (model) array holding what the spec says."""
        if not self.sym:
            return real_array(spec)
        if any(isinstance(n, SymInt) for n in spec.shape):
            fn = spec.fn
            d = A.Pull(spec.shape, spec.dtype, fn)
            if spec.mask is None:
                return d
            r = A.MArr(d)
            if not getattr(spec, 'nomask', False):
                r._mask = A.Pull(spec.shape, np.dtype(bool), spec.mask)
        else:
            ids = list(np.ndindex(*spec.shape))
            d = A.Buf.make(spec.shape, spec.dtype,
                           [spec.fn(i) for i in ids])
            if spec.mask is None:
                return d
            r = A.MArr(d)
            if not getattr(spec, 'nomask', False):
                r._mask = A.Buf.make(spec.shape, np.dtype(bool),
                                     [C.truth(spec.mask(i)) for i in ids])
        if spec.fill is not None:
            r.proto.fill_value = spec.fill
        return r

    def source(self, spec, name='src', ortho=False, cls=None, **kw):
        return Source(self, spec, name, ortho, **kw)

    # ------------------------------------------------------- comparison
    def same(self, got, spec, what, exact=True, dtype=True):
        """`got` is the plain array `spec` describes."""
        self._kind(got, False, what)
        self._shape(got, spec, what)
        if dtype:
            self.check(got.dtype == spec.dtype, '%s: dtype %s instead of %s'
                       % (what, got.dtype, spec.dtype))
        self._values(got, spec, None, what, exact)

    def same_masked(self, got, spec, what, exact=True, dtype=True,
                    fill=False):
        self._kind(got, True, what)
        self._shape(got, spec, what)
        if dtype:
            self.check(got.dtype == spec.dtype, '%s: dtype %s instead of %s'
                       % (what, got.dtype, spec.dtype))
        self._values(got, spec, spec.m, what, exact)
        if fill:
            f = spec.fill
            if f is None:
                f = np.ma.default_fill_value(spec.dtype)
            self.check(fill_equal(got.fill_value, f),
                       '%s: fill value %r instead of %r'
                       % (what, got.fill_value, f))

    def expect(self, got, expected, what, exact=True):
        """`got` equals an array which NumPy computed."""
        if not isinstance(expected, (A.Nd, np.ndarray)):
            expected = self.xp.asarray(expected)
        elif expected is A.masked or expected is np.ma.masked:
            expected = self.xp.ma.array(expected, dtype=got.dtype)
        if isinstance(expected, A.Nd):
            masked = isinstance(expected, A.MArr)
        else:
            masked = isinstance(expected, np.ma.MaskedArray)
        spec = self.checksum(expected)
        if masked:
            if spec.mask is None:
                spec.mask = lambda i: False
            self.same_masked(got, spec, what, exact)
        else:
            self.same(got, spec, what, exact)

    def _kind(self, got, masked, what):
        if masked:
            ok = isinstance(got, (A.MArr, np.ma.MaskedArray))
        else:
            ok = (isinstance(got, (A.Buf, A.Pull)) and not got.is_scalar) \
                or type(got) is np.ndarray
        self.check(ok, '%s: realised to a %s' % (
            what, type(got).__name__ if not isinstance(got, A.Nd)
            else ('masked array' if isinstance(got, A.MArr)
                  else 'scalar')))

    def _shape(self, got, spec, what):
        self.same_shape(got.shape, spec.shape, what)

    def same_shape(self, shape, expected, what):
        self.check(len(shape) == len(expected), '%s: rank %d instead of %d'
                   % (what, len(shape), len(expected)))
        self.check(self.all([a == b for a, b in zip(shape, expected)]),
                   '%s: shape' % what)

    def _values(self, got, spec, mask, what, exact):
        gf, gm = self.reader(got)
        if any(isinstance(n, SymInt) for n in got.shape):
            idx = []
            conds = []
            for d, n in enumerate(got.shape):
                q = self.int('q%d@%s' % (d, what), 0, None)
                idx.append(q)
                conds.append(q < n)
            c = self._one(gf, gm, spec, mask, tuple(idx), exact)
            pre = self.all(conds)
            self.check(C.b_or(C.b_not(pre), c), '%s: values' % what)
            return
        conds = []
        bad = []
        for idx in np.ndindex(*[int(n) for n in got.shape]):
            c = self._one(gf, gm, spec, mask, idx, exact)
            if not self.sym and not c and len(bad) < 3:
                bad.append('%s: got %s expected %s' % (
                    idx, 'masked' if gm and gm(idx) else gf(idx),
                    'masked' if mask and mask(idx) else spec.fn(idx)))
            conds.append(c)
        self.check(self.all(conds), '%s: values%s' % (
            what, ' ' + '; '.join(bad) if bad else ''))

    def _one(self, gf, gm, spec, mask, idx, exact):
        if mask is None:
            return self.val_eq(gf(idx), spec.fn(idx), exact)
        m = C.truth(mask(idx))
        g = C.truth(gm(idx))
        if not self.sym:
            return m == g and (m or self.val_eq(gf(idx), spec.fn(idx),
                                                exact))
        same = mkbool(T.eq(to_bool_term(m), to_bool_term(g)))
        if m is True:
            return same
        return C.b_and(same, C.b_or(m, self.val_eq(gf(idx), spec.fn(idx),
                                                   exact)))

    def val_eq(self, a, b, exact=True):
        if self.sym:
            return cell_eq(a, b)
        return real_eq(a, b, exact)

    def reader(self, x):
        """(value, mask bit) of an array as functions of the index."""
        if isinstance(x, A.MArr):
            d = A.pull_fn(x._data) if isinstance(x._data, A.Pull) else \
                A.buf_fn(x._data)
            if x._mask is A.nomask:
                return d, lambda i: False
            m = A.pull_fn(x._mask) if isinstance(x._mask, A.Pull) else \
                A.buf_fn(x._mask)
            return d, m
        if isinstance(x, A.Pull):
            return A.pull_fn(x), None
        if isinstance(x, A.Buf):
            return A.buf_fn(x), None
        if isinstance(x, np.ma.MaskedArray):
            data = np.asarray(x.data)
            mk_ = np.ma.getmaskarray(x)
            return (lambda i: real_cell(data, i),
                    lambda i: bool(mk_[tuple(int(j) for j in i)]))
        return lambda i: real_cell(x, i), None

    def checksum(self, x):
        """Contents of a (model) array, for later comparison."""
        gf, gm = self.reader(x)
        if any(isinstance(n, SymInt) for n in x.shape):
            return Spec(x.shape, x.dtype, gf, gm)
        snap = {}
        msnap = {}
        for idx in np.ndindex(*x.shape):
            snap[idx] = gf(idx)
            if gm is not None:
                msnap[idx] = gm(idx)
        return Spec(x.shape, x.dtype, lambda i: snap[tuple(i)],
                    (lambda i: msnap[tuple(i)]) if gm is not None else None)

    # ----------------------------------------------------------- indexing
    def make_slice(self, name, parts, step=(None, None)):
        """
        A slice; `parts` names which of start/stop/step are given, e.g.
        'b' (start), 'e' (stop), 's' (step) in any combination, or 't' (a
        step of at most 3 either way).
        """
        b = self.int(name + '.b') if 'b' in parts else None
        e = self.int(name + '.e') if 'e' in parts else None
        s = None
        if 's' in parts:
            s = self.int(name + '.s', *step)
            self.assume(s != 0)
        elif 't' in parts:
            lo, hi = step
            s = self.small(name + '.s', -3 if lo is None else lo,
                           3 if hi is None else hi)
            self.assume(s != 0)
        return slice(b, e, s)

    def int_array(self, ks):
        """An integer ndarray used as an index."""
        dt = np.dtype(int)
        if self.sym:
            return A.Buf.make((len(ks),), dt, ks)
        return np.array(ks, dtype=dt)

    def np_int(self, k, dtype='int64'):
        """The same integer, as a NumPy scalar."""
        dtype = np.dtype(dtype)
        if self.sym and isinstance(k, SymInt):
            return SymInt(k.t, dtype)
        return dtype.type(k)

    def make_key(self, name, kind, n):
        """
        An in-range key for a dimension of length n.

        kind: 'int', 'full', 'slice:<parts>', 'pslice:..' (positive step),
        'seq<k>' (k integers), 'bool' (needs a plain n), 'none', 'ell';
        'npint', 'nps<k>' and 'npslice' are made of NumPy integers,
        'npuint' and 'npus<k>' of unsigned ones.

        """
        if kind == 'full':
            return slice(None)
        if kind == 'int':
            k = self.int(name)
            self.assume(self.all([k < n, k >= -n]))
            return k
        if kind == 'npint':
            return self.np_int(self.make_key(name, 'int', n))
        if kind == 'npuint':
            k = self.make_key(name, 'int', n)
            self.assume(k >= 0)
            return self.np_int(k, 'uint64')
        if kind.startswith('npus'):
            ks = self.make_key(name, 'seq' + kind[4:], n)
            self.assume(self.all([k >= 0 for k in ks]))
            return tuple(self.np_int(k, 'uint64') for k in ks)
        if kind.startswith('nps') and kind[3:].isdigit():
            return tuple(self.np_int(k) for k in self.make_key(
                name, 'seq' + kind[3:], n))
        if kind == 'npslice':
            s = self.make_slice(name, 'be')
            return slice(self.np_int(s.start), self.np_int(s.stop))
        if kind.startswith('slice:'):
            return self.make_slice(name, kind[6:])
        if kind.startswith('pslice:'):
            return self.make_slice(name, kind[7:], (1, None))
        if kind.startswith('nslice:'):
            return self.make_slice(name, kind[7:], (None, -1))
        if kind[:3] in ('seq', 'lst', 'arr'):
            ks = []
            for j in range(int(kind[3:])):
                k = self.int('%s.%d' % (name, j))
                self.assume(self.all([k < n, k >= -n]))
                ks.append(k)
            if kind[:3] == 'lst':
                return ks
            if kind[:3] == 'arr':
                return self.int_array(ks)
            return tuple(ks)
        if kind == 'bool':
            bits = [self.flag('%s.m%d' % (name, j)) for j in range(int(n))]
            return np.array(bits, dtype=bool)
        raise ValueError(kind)


def where(e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    if os.environ.get('SX_DEBUG'):
        return ' [%s]' % ' '.join('%s:%d' % (os.path.basename(
            f.filename), f.lineno) for f in tb[-9:])
    return ' [%s:%d]' % (os.path.basename(tb[-1].filename), tb[-1].lineno) \
        if tb else ''


def brief(e):
    s = str(e)
    return s if len(s) < 160 else s[:160] + '...'


def fill_equal(a, b):
    try:
        if a == b:
            return True
        return bool(a != a and b != b)
    except Exception:
        return False


def _generic(name, dtype):
    def fn(idx):
        ts = [num_term(i) for i in idx]
        if dtype.kind == 'b':
            return mkbool(T.uf(name, ts, 'B'))
        if dtype.kind in 'iu':
            lo, hi = C.int_range(dtype)
            return mk(T.uf(name, ts, 'I', lo, hi))
        return mk(T.uf(name, ts, 'R'))
    return fn


def opaque(v):
    """A value of a type on which nothing is computed."""
    return isinstance(v, np.timedelta64) or not isinstance(
        v, (bool, int, float, Fraction, np.number, np.bool_, Sym)) or \
        isinstance(v, np.complexfloating)


def cell_eq(a, b):
    if opaque(a) or opaque(b):
        return bool(a == b)
    if C.nonfinite(a) or C.nonfinite(b):
        if C.nonfinite(a) and C.nonfinite(b):
            return bool(a == b or (a != a and b != b))
        return False
    ab, bb = isinstance(a, (bool, SymBool)), isinstance(b, (bool, SymBool))
    if ab and bb:
        return mkbool(T.eq(to_bool_term(a), to_bool_term(b)))
    ta, tb = num_term(a), num_term(b)
    if ta is None or tb is None:
        return bool(a == b)
    return mkbool(T.eq(ta, tb))


def real_eq(a, b, exact):
    if opaque(a) or opaque(b):
        return bool(a == b)
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    fa, fb = float(a), float(b)
    if fa != fa or fb != fb:
        return fa != fa and fb != fb
    if fa == fb:
        return True
    if exact is True:
        return False
    tol = 1e-6 if exact is False else float(exact)
    return abs(fa - fb) <= tol * max(1.0, abs(fa), abs(fb))


def real_cell(x, i):
    v = x[tuple(int(j) for j in i)]
    if isinstance(v, np.ndarray):
        v = v[()]
    dt = np.asarray(v).dtype
    if dt.kind in 'biuf':
        return C.from_py(v, dt)
    return v


LIMIT = 2000000


def real_array(spec):
    n = 1
    for d in spec.shape:
        n *= d
    if n > 20000:
        raise Skip()
    a = np.empty(spec.shape, dtype=spec.dtype)
    for idx in np.ndindex(*spec.shape):
        v = spec.fn(idx)
        a[idx] = float(v) if isinstance(v, Fraction) else v
    if spec.mask is None:
        return a
    if getattr(spec, 'nomask', False):
        r = np.ma.masked_array(a)
    else:
        m = np.empty(spec.shape, dtype=bool)
        for idx in np.ndindex(*spec.shape):
            m[idx] = bool(spec.mask(idx))
        r = np.ma.masked_array(a, mask=m)
    if spec.fill is not None:
        r.fill_value = spec.fill
    return r


class Source(object):
    """
    A data source which records how it is read.

    ortho=True: indexes each dimension independently, as netCDF and HDF
    variables do; otherwise it indexes as NumPy does.

    """
    def __init__(self, env, spec, name='src', ortho=False, fail=None,
                 hook=None):
        self._env = env
        self._spec = spec
        self._name = name
        self._ortho = ortho
        self._fail = fail
        self._hook = hook
        self._base = None
        self.reads = []
        self.shape = tuple(spec.shape)
        self.dtype = spec.dtype
        self.ndim = len(self.shape)
        if spec.mask is not None and spec.fill is not None:
            self.fill_value = spec.fill

    __array_priority__ = 0.0

    def __deepcopy__(self, memo):
        new = Source(self._env, self._spec, self._name, self._ortho,
                     self._fail, self._hook)
        memo[id(self)] = new
        return new

    def __getitem__(self, keys):
        sub = self._spec.index(keys) if self._ortho or not _fancy(keys) \
            else None
        self.reads.append((keys, sub.shape if sub is not None else None))
        if sched.SCHED[0] is not None:
            sched.SCHED[0].point('read')
        if self._hook is not None:
            self._hook(self, keys)
        if self._fail is not None and self._fail(len(self.reads) - 1):
            raise SourceError('reading %s failed' % self._name)
        try:
            if sub is not None:
                return self._env.array(sub)
            if self._base is None:
                self._base = self._env.array(self._spec)
        except Skip:
            self._env.skipped = True
            raise
        return self._base[keys]

    def __len__(self):
        return self.shape[0]

    def __array__(self, *a):
        self.reads.append(('array', self.shape))
        raise TypeError('whole-array conversion of a data source')

    def elements_read(self):
        n = 0
        for k, shape in self.reads:
            m = 1
            for d in shape:
                m = d * m
            n = m + n
        return n


def _fancy(keys):
    if not isinstance(keys, tuple):
        keys = (keys,)
    n = 0
    for k in keys:
        if k is Ellipsis or k is None or isinstance(k, slice) or is_int(k):
            continue
        n += 1
    return n > 0 and len(keys) > 1


class SourceError(Exception):
    pass


# ------------------------------------------------------------- real package

class _Poison(object):
    """`numpy` (or numpy.ma) whose empty() is never conveniently zero."""

    def __init__(self, real, **over):
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self.__dict__['_real'], name)


def _poison_fill(a):
    d = np.ma.getdata(a)
    if d.dtype.kind == 'f':
        d[...] = -7.25e11
    elif d.dtype.kind in 'iu':
        d[...] = 85
    elif d.dtype.kind == 'b':
        d[...] = True
    return a


class RealPackage(object):
    """The package imported the ordinary way."""

    def __init__(self, repo, threads=None):
        sys.dont_write_bytecode = True
        if sys.path[0] != repo:
            sys.path.insert(0, repo)
        for m in list(sys.modules):
            if m == 'biggus' or m.startswith('biggus.'):
                del sys.modules[m]
        saved = {}
        if threads:
            # Import it with the controlled scheduler instead of OS threads.
            import six
            saved = {m: sys.modules[m] for m in ('threading', 'queue')}
            moves = six.moves.queue
            sys.modules['threading'] = sched.ThreadingShim()
            sys.modules['queue'] = six.moves.queue = sched.QueueShim()
        try:
            import biggus
            import biggus._init as init
        finally:
            if saved:
                sys.modules.update(saved)
                six.moves.queue = moves
        self.repo = repo
        self.biggus = biggus
        self.init = init
        maproxy = _Poison(np.ma, empty=lambda *a, **k: _poison_fill(
            np.ma.empty(*a, **k)))
        npproxy = _Poison(np, empty=lambda *a, **k: _poison_fill(
            np.empty(*a, **k)), ma=maproxy,
            empty_like=lambda *a, **k: _poison_fill(np.empty_like(*a, **k)))
        for m in (init,):
            if getattr(m, 'np', None) is np:
                m.np = npproxy
            if getattr(m, 'ma', None) is np.ma:
                m.ma = maproxy

    def load(self, name):
        __import__(name)
        return sys.modules[name]
