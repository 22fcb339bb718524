"""
Path exploration: forks on symbolic conditions, discharges obligations.

The code under test runs natively; whenever it needs the truth of a symbolic
condition (or a concrete integer at a C boundary), the executor asks the
solver which outcomes are feasible on the current path, follows one and comes
back for the others by re-execution, until every feasible path was run.
"""
import subprocess
import os
import time
from fractions import Fraction

import numpy as np

from . import term as T


class PathControl(BaseException):
    """Steers the executor; never meant for the code under test."""
    def __init__(self, *args):
        BaseException.__init__(self, *args)
        e = CURRENT[0]
        if e is not None and e.pending is None:
            # Noticed at the end of the path even if it gets swallowed.
            e.pending = self


class Infeasible(PathControl):
    """The assumptions of the harness do not hold on this path."""


class Unsupported(PathControl):
    """The code reached something the encoding does not model."""


class BoundCut(PathControl):
    """The path leaves the stated bounds (loop unrolling, value range)."""


class CheckFailed(PathControl):
    """An obligation has a counterexample."""
    def __init__(self, msg, model, kind):
        PathControl.__init__(self, msg)
        self.msg = msg
        self.model = model
        self.kind = kind


class SolverError(Exception):
    pass


CURRENT = [None]


def eng():
    return CURRENT[0]


class Solver(object):
    def __init__(self, exe='z3', timeout_ms=20000):
        self.exe = exe
        self.timeout_ms = timeout_ms
        self.queries = 0
        self.unknowns = 0
        self.time = 0.0
        self.depth = 0
        self.proc = None
        self._start()

    def _start(self):
        self.proc = subprocess.Popen([self.exe, '-in'],
                                     stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE,
                                     stderr=subprocess.STDOUT,
                                     universal_newlines=True, bufsize=1 << 16)
        self.buf = []
        self.printer = T.Printer(self.buf.append)
        self.buf.append('(set-option :global-declarations true)')
        self.buf.append('(set-option :timeout %d)' % self.timeout_ms)

    def close(self):
        if self.proc is not None:
            try:
                self.proc.stdin.close()
                self.proc.wait(timeout=5)
            except Exception:
                self.proc.kill()
            self.proc = None

    def _flush_side(self):
        # Facts about square roots hold for every value: assert them at
        # the current level (they are re-asserted when popped).
        if self.printer.side:
            self.sides = getattr(self, 'sides', [])
            self.sides.extend(self.printer.side)
            del self.printer.side[:]

    def push(self):
        self.buf.append('(push 1)')
        self.depth += 1

    def pop(self, n):
        if n:
            self.buf.append('(pop %d)' % n)
            self.depth -= n

    def assert_(self, b):
        s = self.printer.bool(b)
        self._flush_side()
        self.buf.append('(assert %s)' % s)

    def _talk(self, n_lines):
        t = time.time()
        self.proc.stdin.write('\n'.join(self.buf) + '\n')
        self.proc.stdin.flush()
        del self.buf[:]
        out = []
        for _ in range(n_lines):
            line = self.proc.stdout.readline()
            if not line:
                raise SolverError('solver died')
            out.append(line.strip())
            if line.startswith('(error'):
                raise SolverError(line)
        self.time += time.time() - t
        return out

    def check(self, extra=(), want_model=False, apps=False):
        """sat/unsat/unknown of the stack plus `extra`, with a model."""
        ex = [self.printer.bool(b) for b in extra]
        self._flush_side()
        for s in getattr(self, 'sides', ()):
            ex.append(s)
        self.buf.append('(push 1)')
        for s in ex:
            self.buf.append('(assert %s)' % s)
        self.buf.append('(check-sat)')
        self.queries += 1
        r = self._talk(1)[0]
        model = None
        if r == 'sat' and want_model:
            model = self._model(apps)
        if r not in ('sat', 'unsat', 'unknown'):
            raise SolverError(r)
        if r == 'unknown':
            self.unknowns += 1
        self.buf.append('(pop 1)')
        return r, model

    def _model(self, apps=False):
        names = list(self.printer.vars)
        model = {}
        if not names:
            return model
        pairs = self._get_values(['|%s|' % n for n in names])
        for name, val in pairs:
            name = name.strip('|')
            model[name] = _value(val, self.printer.vars[name])
        if apps:
            model['@apps'] = self._apps()
        return model

    def _apps(self):
        """Values of the unknown source contents used in the formula."""
        apps = list(self.printer.apps.items())[-300:]
        if not apps:
            return []
        texts = []
        for body, (name, args, srt) in apps:
            texts.append(body)
            texts.extend(args)
        vals = [v for _, v in self._get_values(texts)]
        out = []
        i = 0
        for body, (name, args, srt) in apps:
            v = _value(vals[i], srt)
            idx = [_value(x, 'I') for x in vals[i + 1:i + 1 + len(args)]]
            i += 1 + len(args)
            out.append([name, idx, v])
        return out

    def _get_values(self, texts):
        self.buf.append('(get-value (%s))' % ' '.join(texts))
        self.buf.append('(echo "##end")')
        t = time.time()
        self.proc.stdin.write('\n'.join(self.buf) + '\n')
        self.proc.stdin.flush()
        del self.buf[:]
        text = []
        while True:
            line = self.proc.stdout.readline()
            if not line:
                raise SolverError('solver died')
            if line.startswith('(error'):
                raise SolverError(line)
            if '##end' in line:
                break
            text.append(line)
        self.time += time.time() - t
        return _parse(' '.join(text))


def _tokens(s):
    tok = ''
    inbar = False
    for ch in s:
        if inbar:
            tok += ch
            if ch == '|':
                inbar = False
            continue
        if ch == '|':
            tok += ch
            inbar = True
        elif ch in '()':
            if tok:
                yield tok
                tok = ''
            yield ch
        elif ch.isspace():
            if tok:
                yield tok
                tok = ''
        else:
            tok += ch
    if tok:
        yield tok


def _parse(s):
    stack = [[]]
    for t in _tokens(s):
        if t == '(':
            stack.append([])
        elif t == ')':
            x = stack.pop()
            stack[-1].append(x)
        else:
            stack[-1].append(t)
    return stack[0][0] if stack[0] else []


def _value(v, sort):
    if isinstance(v, list):
        if v[0] == '-':
            r = _value(v[1], sort)
            return None if r is None else -r
        if v[0] == '/':
            return Fraction(_value(v[1], 'R')) / Fraction(_value(v[2], 'R'))
        if v[0] == 'root-obj':
            return None         # an irrational number
        raise SolverError('value %r' % (v,))
    if v == 'true':
        return True
    if v == 'false':
        return False
    if sort == 'I':
        return int(v)
    return Fraction(v)


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.completed = 0
        self.infeasible = 0
        self.cut = 0
        self.unsupported = 0
        self.inconclusive = 0
        self.forks = 0
        self.obligations = 0
        self.trivial = 0
        self.discharged = 0
        self.notes = {}


class Engine(object):
    def __init__(self, solver, max_loop=8, max_values=70, deadline=None,
                 max_paths=100000):
        self.solver = solver
        self.stats = Stats()
        self.max_loop = max_loop
        self.max_values = max_values
        self.deadline = deadline
        self.max_paths = max_paths
        self.trail = []        # [term, taken, other_model or None, kind]
        self.pos = 0
        self.model = {}
        self.var_bounds = {}
        self.vars = {}
        self.path_vars = []
        self.funcs = set()
        self.opaque_format = True
        self.formats = None     # a list: record what is formatted, and how
        self.path_unknown = False
        self.pending = None
        self.fresh = 0

    # ------------------------------------------------------ variables
    def new_var(self, name, sort, lo=None, hi=None):
        if sort != 'B':
            key = (lo, hi)
            if self.var_bounds.setdefault(name, key) != key:
                raise RuntimeError('variable %s redeclared with other bounds'
                                   % name)
        if name not in self.path_vars:
            self.path_vars.append(name)
        t = T.var(name, sort, lo, hi)
        if sort != 'B':
            v = self.model.get(name)
            if v is None or (lo is not None and v < lo) or \
                    (hi is not None and v > hi):
                # Not constrained so far on this path.
                v = 0
                if lo is not None and v < lo:
                    v = lo
                if hi is not None and v > hi:
                    v = hi
                self.model[name] = v if sort == 'I' else Fraction(v)
            c = []
            if lo is not None:
                c.append(self._raw_le(T.iconst(lo) if sort == 'I'
                                      else T.rconst(lo), t))
            if hi is not None:
                c.append(self._raw_le(t, T.iconst(hi) if sort == 'I'
                                      else T.rconst(hi)))
            for b in c:
                self._assume_raw(b, known=True)
        elif name not in self.model:
            self.model[name] = False
        return t

    @staticmethod
    def _raw_le(a, b):
        # A comparison that is not simplified away by the interval bounds.
        n = T.sub(a, b)
        return T._mk_bool('le', (n,))

    def _assume_raw(self, b, known=False):
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e[0] is not b or e[3] != 'assume':
                raise RuntimeError('non-deterministic re-execution')
            self.pos += 1
            return
        self.solver.assert_(b)
        self.trail.append([b, True, None, 'assume'])
        self.pos += 1
        if not known:
            self._refresh(b)

    def _refresh(self, b):
        """Make the cached model satisfy b too (or give the path up)."""
        if self._holds(b) is True:
            return
        r, m = self.solver.check(want_model=True)
        if r == 'unsat':
            raise Infeasible()
        if r == 'unknown':
            self.path_unknown = True
            return
        self._set_model(m)

    def _set_model(self, m):
        mm = dict(self.model)
        mm.update(m)
        # Irrational values are left undecided.
        self.model = {k: v for k, v in mm.items() if v is not None}

    def _holds(self, b):
        try:
            return T.evaluate(b, self.model)
        except (T.Undefined, KeyError):
            return None

    def assume(self, c):
        b = to_bool_term(c)
        if b is T.TRUE:
            return
        if b is T.FALSE:
            raise Infeasible()
        self._assume_raw(b)

    # ----------------------------------------------------------- forks
    def fork(self, b, kind='fork'):
        if b is T.TRUE:
            return True
        if b is T.FALSE:
            return False
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e[0] is not b:
                raise RuntimeError('non-deterministic re-execution: '
                                   '%r vs %r' % (e[0], b))
            self.pos += 1
            return e[1]
        if self.deadline is not None and time.time() > self.deadline:
            raise BoundCut('time')
        self.stats.forks += 1
        if FORK_SITES is not None:
            import traceback
            site = ' < '.join('%s:%d' % (f.filename.rsplit('/', 1)[-1],
                                         f.lineno) for f in
                              traceback.extract_stack()[-2:-9:-1])
            FORK_SITES[site] = FORK_SITES.get(site, 0) + 1
        taken = self._holds(b)
        if taken is None:
            # Model does not decide it: ask.
            r, m = self.solver.check([b], want_model=True)
            if r == 'sat':
                self._set_model(m)
                taken = True
            elif r == 'unsat':
                taken = False
            else:
                self.path_unknown = True
                taken = True
        other = T.not_(b) if taken else b
        r, m = self.solver.check([other], want_model=True)
        if r == 'unsat':
            self.trail.append([b, taken, None, 'forced'])
            self.pos += 1
            return taken
        self.solver.push()
        self.solver.assert_(b if taken else T.not_(b))
        self.trail.append([b, taken, m if r == 'sat' else {'__unknown__': True}, kind])
        self.pos += 1
        return taken

    def implied(self, b):
        """Whether the path so far implies b (False when not settled)."""
        if b is T.TRUE or b is T.FALSE:
            return b is T.TRUE
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e[0] is not b or e[3] != 'ask':
                raise RuntimeError('non-deterministic re-execution')
            self.pos += 1
            return e[1]
        if self._holds(b) is False:
            r = False
        else:
            r = self.solver.check([T.not_(b)])[0] == 'unsat'
        self.trail.append([b, r, None, 'ask'])
        self.pos += 1
        return r

    def concretise(self, n):
        """Exhaustively fork over the values of an integer term."""
        if n.const is not None:
            return n.const
        tried = 0
        while True:
            if self.pos < len(self.trail):
                e = self.trail[self.pos]
                if len(e) < 5 or e[4] is None:
                    raise RuntimeError('non-deterministic re-execution')
                v = e[4]
                if self.fork(e[0]):
                    return v
            else:
                try:
                    v = T.evaluate(n, self.model)
                except T.Undefined:
                    raise Unsupported('cannot evaluate a term to a value')
                b = T.eq(n, T.iconst(int(v)))
                v = int(v)
                if b is T.TRUE:
                    return v
                r = self.fork(b, 'value')
                e = self.trail[-1]
                while len(e) < 5:
                    e.append(None)
                e[4] = v
                if r:
                    return v
            tried += 1
            if tried > self.max_values:
                raise BoundCut('values')

    def backtrack(self):
        """Prepare the next path; False when all were explored."""
        while self.trail:
            e = self.trail[-1]
            if e[2] is not None:
                break
            self.trail.pop()
            if e[3] in ('fork', 'value', 'flipped'):
                self.solver.pop(1)
        if not self.trail:
            return False
        e = self.trail[-1]
        self.solver.pop(1)
        self.solver.push()
        taken = not e[1]
        self.solver.assert_(e[0] if taken else T.not_(e[0]))
        m = e[2]
        e[1] = taken
        e[2] = None
        e[3] = 'flipped'
        self.model = dict(m)
        return True

    # ------------------------------------------------------- obligations
    def check(self, c, msg, kind='value'):
        b = to_bool_term(c)
        self.stats.obligations += 1
        if b is T.TRUE:
            self.stats.trivial += 1
            self.stats.discharged += 1
            return
        nb = T.not_(b)
        r, m = self.solver.check([nb], want_model=True)
        if r == 'unsat':
            self.stats.discharged += 1
            return
        if r == 'unknown':
            self.stats.inconclusive += 1
            self.note('unknown: %s' % msg)
            return
        m = self.small_model([nb], m)
        raise CheckFailed(msg, m, kind)

    def note(self, s):
        self.stats.notes[s] = self.stats.notes.get(s, 0) + 1

    def small_model(self, extra, m):
        """A model of the path with small integer values, if there is one."""
        ints = [n for n in self.path_vars
                if self.solver.printer.vars.get(n) == 'I']
        reals = [n for n in self.path_vars
                 if self.solver.printer.vars.get(n) == 'R']
        ivs = [T.var(n, 'I', *self.var_bounds[n]) for n in ints]
        rvs = [T.var(n, 'R', *self.var_bounds[n]) for n in reals]
        for lim in (2, 4, 7, 12, 30, 100, 1000, 100000):
            cs = []
            for v in ivs:
                cs.append(T._mk_bool('le', (T.sub(v, T.iconst(lim)),)))
                cs.append(T._mk_bool('le', (T.sub(T.iconst(-lim), v),)))
            for v in rvs:
                cs.append(T.le(v, T.rconst(lim)))
                cs.append(T.le(T.rconst(-lim), v))
            cs = [c for c in cs if c is not T.TRUE and c is not T.FALSE]
            r, mm = self.solver.check(list(extra) + cs, want_model=True,
                                      apps=True)
            if r == 'sat':
                m = mm
                break
        full = dict(self.model)
        full.update(m)
        out = {k: full[k] for k in self.path_vars if k in full}
        if '@apps' in m:
            out['@apps'] = m['@apps']
        return out

    # -------------------------------------------------------------- run
    def explore(self, body, on_path):
        """
        Run `body()` once per feasible path.

        `on_path(kind, payload)` is told how each path ended.

        """
        self.trail = []
        self.model = {}
        self.solver.push()
        while True:
            self.pos = 0
            self.path_vars = []
            self.path_unknown = '__unknown__' in self.model
            self.pending = None
            self.fresh = 0
            self.stats.paths += 1
            CURRENT[0] = self
            try:
                try:
                    body()
                except PathControl:
                    raise
                except BaseException:
                    if self.pending is None:
                        raise
                if self.pending is not None:
                    raise self.pending
            except Infeasible:
                self.stats.infeasible += 1
                on_path('infeasible', None)
            except BoundCut as e:
                self.stats.cut += 1
                self.note('cut: %s' % e)
                on_path('cut', str(e))
            except Unsupported as e:
                self.stats.unsupported += 1
                self.note('unsupported: %s' % e)
                on_path('unsupported', str(e))
            except CheckFailed as e:
                on_path('failed', e)
            else:
                self.stats.completed += 1
                if self.path_unknown:
                    self.stats.inconclusive += 1
                on_path('completed', None)
            finally:
                CURRENT[0] = None
            if self.deadline is not None and time.time() > self.deadline:
                if self.backtrack():
                    self.note('time budget reached')
                    on_path('budget', None)
                break
            if self.stats.paths >= self.max_paths:
                if self.backtrack():
                    self.note('path budget reached')
                    on_path('budget', None)
                break
            if not self.backtrack():
                break
        self.solver.pop(self.solver.depth)

    def path_model(self):
        """A (small if possible) model of the current complete path."""
        return self.small_model([], self.model)


# ------------------------------------------------------------ sym values

# Debugging aid (set SX_FORKS=1): where paths fork.
FORK_SITES = {} if os.environ.get('SX_FORKS') else None


def is_sym(x):
    return isinstance(x, Sym)


class Sym(object):
    __slots__ = ()
    __array_ufunc__ = None
    # Set by arr: operators whose other side is an array.
    array_op = None


def to_bool_term(c):
    if isinstance(c, SymBool):
        return c.t
    if isinstance(c, T.Bool):
        return c
    if isinstance(c, (bool, np.bool_)):
        return T.bconst(bool(c))
    if isinstance(c, (int, np.integer)):
        return T.bconst(bool(c))
    if isinstance(c, SymNum):
        return T.not_(T.eq0(c.t))
    raise TypeError('not a condition: %r' % (c,))


def num_term(x):
    """Numeric term of a value, or None."""
    if isinstance(x, SymNum):
        return x.t
    if isinstance(x, SymBool):
        return T.ite(x.t, T.iconst(1), T.iconst(0))
    if isinstance(x, (bool, np.bool_)):
        return T.iconst(int(x))
    if isinstance(x, (int, np.integer)):
        return T.iconst(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (float('inf'), -float('inf')):
            return None
        return T.rconst(Fraction(x))
    if isinstance(x, Fraction):
        return T.rconst(x)
    return None


def mk(t):
    """Wrap a term, or return a plain value when it is constant."""
    if isinstance(t, T.Bool):
        if t.op == 'const':
            return t.args[0]
        return SymBool(t)
    if t.const is not None:
        return t.const
    if t.sort == 'I':
        return SymInt(t)
    return SymReal(t)


def mkbool(t):
    if t.op == 'const':
        return t.args[0]
    return SymBool(t)


class SymBool(Sym):
    __slots__ = ('t',)
    ndim = 0
    shape = ()
    dtype = np.dtype(bool)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().fork(self.t)

    def __and__(self, o):
        o = _bt(o)
        if o is None:
            return NotImplemented
        return mkbool(T.and_(self.t, o))
    __rand__ = __and__

    def __or__(self, o):
        o = _bt(o)
        if o is None:
            return NotImplemented
        return mkbool(T.or_(self.t, o))
    __ror__ = __or__

    def __xor__(self, o):
        o = _bt(o)
        if o is None:
            return NotImplemented
        return mkbool(T.not_(T.eq(self.t, o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(T.not_(self.t))

    def __eq__(self, o):
        b = _bt(o)
        if b is None:
            return NotImplemented
        return mkbool(T.eq(self.t, b))

    def __ne__(self, o):
        b = _bt(o)
        if b is None:
            return NotImplemented
        return mkbool(T.not_(T.eq(self.t, b)))

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def _n(self):
        return mk(num_term(self))

    def __add__(self, o):
        return self._n() + o

    def __radd__(self, o):
        return o + self._n()

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __mul__(self, o):
        return self._n() * o
    __rmul__ = __mul__

    def __repr__(self):
        return fmt(self)

    def __format__(self, spec):
        return fmt(self, spec)


def _bt(o):
    if isinstance(o, SymBool):
        return o.t
    if isinstance(o, (bool, np.bool_)):
        return T.bconst(bool(o))
    return None


def fmt(x, spec=''):
    e = eng()
    if e is not None and e.formats is not None:
        # Stands for the text of the number in the text under construction.
        e.formats.append((x, str(spec)))
        return '\x02%d\x03' % (len(e.formats) - 1)
    if e is None or e.opaque_format:
        return '<sym>'
    if isinstance(x, SymInt):
        return str(int(x))
    if isinstance(x, SymBool):
        return str(bool(x))
    return '<sym>'


HASH = [False]


class SymNum(Sym):
    __slots__ = ('t', 'npdtype')

    def __init__(self, t, npdtype=None):
        self.t = t
        self.npdtype = npdtype

    def _w(self, t):
        r = mk(t)
        if self.npdtype is not None and type(r) is SymInt:
            if self.npdtype.kind == 'i':
                return SymInt(r.t, self.npdtype)
            if self.npdtype.kind == 'u' and self.npdtype.itemsize == 8:
                # With a signed integer NumPy makes this floating point.
                return SymReal(T.to_real(r.t), np.dtype('f8'))
        return r

    def __add__(self, o):
        o = num_term(o)
        if o is None:
            return NotImplemented
        return self._w(T.add(self.t, o))
    __radd__ = __add__

    def __sub__(self, o):
        o = num_term(o)
        if o is None:
            return NotImplemented
        return self._w(T.sub(self.t, o))

    def __rsub__(self, o):
        o = num_term(o)
        if o is None:
            return NotImplemented
        return self._w(T.sub(o, self.t))

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        o = num_term(o)
        if o is None:
            return NotImplemented
        return self._w(T.mul(self.t, o))
    __rmul__ = __mul__

    def __neg__(self):
        return self._w(T.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return self._w(T.ite(T.le(T.iconst(0), self.t), self.t,
                             T.neg(self.t)))

    def _div(self, a, b):
        zero = T.eq0(b)
        if eng().fork(zero):
            raise ZeroDivisionError('division by zero')
        return mk(T.rdiv(a, b))

    def __truediv__(self, o):
        o = num_term(o)
        if o is None:
            return NotImplemented
        return self._div(self.t, o)

    def __rtruediv__(self, o):
        o = num_term(o)
        if o is None:
            return NotImplemented
        return self._div(o, self.t)

    def _fdiv(self, a, b):
        if a.sort == 'R' or b.sort == 'R':
            if eng().fork(T.eq0(b)):
                raise ZeroDivisionError('division by zero')
            return mk(T.to_real(T.floor_int(T.rdiv(a, b))))
        if b.const is None:
            if eng().fork(T.eq0(b)):
                raise ZeroDivisionError('integer division or modulo by zero')
            if eng().fork(T.lt0(b)):
                return mk(T.idiv(T.neg(a), T.neg(b)))
        return mk(T.idiv(a, b))

    def __floordiv__(self, o):
        o = num_term(o)
        if o is None:
            return NotImplemented
        return self._fdiv(self.t, o)

    def __rfloordiv__(self, o):
        o = num_term(o)
        if o is None:
            return NotImplemented
        return self._fdiv(o, self.t)

    def __mod__(self, o):
        o = num_term(o)
        if o is None:
            return NotImplemented
        q = num_term(self._fdiv(self.t, o))
        return mk(T.sub(self.t, T.mul(q, o)))

    def __rmod__(self, o):
        o = num_term(o)
        if o is None:
            return NotImplemented
        q = num_term(self._fdiv(o, self.t))
        return mk(T.sub(o, T.mul(q, self.t)))

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported('power')

    def _cmp(self, o, f):
        o = num_term(o)
        if o is None:
            return NotImplemented
        return mkbool(f(self.t, o))

    def __lt__(self, o):
        return self._cmp(o, T.lt)

    def __le__(self, o):
        return self._cmp(o, T.le)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: T.lt(b, a))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: T.le(b, a))

    def __eq__(self, o):
        return self._cmp(o, T.eq)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: T.not_(T.eq(a, b)))

    def __bool__(self):
        return eng().fork(T.not_(T.eq0(self.t)))

    def __repr__(self):
        return fmt(self)
    __str__ = __repr__

    def __format__(self, spec):
        return fmt(self, spec)

    def __hash__(self):
        if HASH[0]:
            # Equality decides (and forks). Sound while no dictionary or set
            # has both symbolic and plain numbers at the same place.
            return 1597463007
        return hash(self.__index__())

    # NumPy scalars have these; plain ints do not (see isinstance hook).
    ndim = 0
    shape = ()


class SymInt(SymNum):
    __slots__ = ()

    @property
    def dtype(self):
        return self.npdtype or np.dtype('int64')

    def __index__(self):
        return eng().concretise(self.t)
    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __and__(self, o):
        return self.__index__() & o

    def __rand__(self, o):
        return o & self.__index__()

    def __lshift__(self, o):
        return self.__index__() << o

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        return self.__index__() >> o

    def bit_length(self):
        lo, hi = T.bounds(self.t)
        top = max(abs(lo), abs(hi))
        if top == float('inf') or top.bit_length() > 1100:
            return self.__index__().bit_length()
        n = abs(self).t if lo < 0 else self.t
        total = T.iconst(0)
        for k in range(top.bit_length()):
            total = T.add(total, T.ite(T.le(T.iconst(1 << k), n),
                                       T.iconst(1), T.iconst(0)))
        return mk(total)


class SymReal(SymNum):
    __slots__ = ()

    @property
    def dtype(self):
        return self.npdtype or np.dtype('float64')

    def __index__(self):
        raise TypeError('float object cannot be interpreted as an integer')

    def __float__(self):
        raise Unsupported('a symbolic real reached a C-level float')

    def __int__(self):
        return eng().concretise(T.floor_int(self.t))

    def __hash__(self):
        raise Unsupported('hash of a symbolic real')


def ite(c, a, b):
    """Choose between two plain or symbolic numbers without forking."""
    c = to_bool_term(c)
    if c is T.TRUE:
        return a
    if c is T.FALSE:
        return b
    return mk(T.ite(c, num_term(a), num_term(b)))


def smin(a, b):
    return ite(a <= b, a, b)


def smax(a, b):
    return ite(a >= b, a, b)


# Operators between a symbolic scalar and a real NumPy array give a model
# array (`arr` installs the function doing it).
ARRAY_OP = [None]


def _with_arrays(cls):
    ops = {'add': 'add', 'sub': 'subtract', 'mul': 'multiply',
           'truediv': 'true_divide', 'floordiv': 'floor_divide',
           'mod': 'remainder'}
    for short, name in ops.items():
        for swap in (False, True):
            meth = '__%s%s__' % ('r' if swap else '', short)
            old = getattr(cls, meth, None)
            if old is None:
                continue
            setattr(cls, meth, _wrap_op(old, name, swap))
    for short, name in (('lt', 'less'), ('le', 'less_equal'),
                        ('gt', 'greater'), ('ge', 'greater_equal'),
                        ('eq', 'equal'), ('ne', 'not_equal')):
        meth = '__%s__' % short
        if meth in cls.__dict__:
            setattr(cls, meth, _wrap_op(getattr(cls, meth), name, False))


def _wrap_op(old, name, swap):
    def op(self, o):
        if isinstance(o, np.ndarray):
            return ARRAY_OP[0](name, o if swap else self,
                               self if swap else o)
        return old(self, o)
    op.__name__ = old.__name__
    return op


_with_arrays(SymNum)
_with_arrays(SymBool)
