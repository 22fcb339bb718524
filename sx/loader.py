"""
Loads the code under test from the current working tree of /repo for symbolic
execution.

The source is parsed and rewritten so that the few operations which CPython
and PyPy implement in C on concrete integers (len, range, isinstance, slice
arithmetic, subscripts of built-in sequences ...) accept symbolic values, and
so that imports of NumPy and of the threading library resolve to the models.
Nothing else of the code is changed or replaced: what runs is the code of
/repo, statement for statement.
"""
import ast
import builtins
import collections
import fractions
import functools
import itertools
import os
import re
import sys
import types

import numpy as np

from . import term as T
from . import arr as A
from . import npshim
from .npshim import ShimType
from .engine import (Sym, SymBool, SymInt, SymReal, SymNum, Unsupported,
                     PathControl, eng, mk, ite, num_term, fmt)
from .seq import SymRange, slice_indices, slen, range_len
from . import sched

REPO = os.environ.get('SX_REPO', '/repo')

# ------------------------------------------------------------ replacements


def _expand(cls):
    if isinstance(cls, tuple):
        out = ()
        for c in cls:
            out += _expand(c)
        return out
    return (cls,)


_INTS = (int, np.integer, np.signedinteger, np.int64, np.generic, np.number)
_PYINTS = (int,)

import numbers  # noqa
import collections.abc as _abc  # noqa


def sx_isinstance(x, cls):
    t = type(x)
    if t in _PLAIN and type(cls) is not ShimType and type(cls) is not tuple:
        return builtins.isinstance(x, cls)
    for c in _expand(cls):
        if builtins.isinstance(c, ShimType):
            if builtins.isinstance(x, c._sx_models):
                if t is A.Buf and x.is_scalar:
                    continue
                return True
            c = c._sx_real
        if builtins.isinstance(x, Sym):
            if t is SymInt:
                if x.npdtype is not None:
                    if builtins.isinstance(c, type) and issubclass(
                            x.npdtype.type, c):
                        return True
                    if c in (numbers.Integral, numbers.Number,
                             numbers.Real):
                        return True
                elif c in (int, object, numbers.Integral, numbers.Number,
                           numbers.Real, _abc.Hashable):
                    return True
            elif t is SymBool:
                if c in (bool, int, object, np.bool_, numbers.Integral):
                    return True
            elif c in (float, object, numbers.Number, numbers.Real,
                       np.floating, np.float64, np.number):
                return True
            continue
        if t is SymRange:
            kind = {'range': range, 'tuple': tuple}[x.kind]
            if builtins.isinstance(c, type) and issubclass(kind, c):
                return True
            if c in (_abc.Iterable, _abc.Sequence, _abc.Sized,
                     _abc.Collection, _abc.Container, _abc.Hashable,
                     _abc.Reversible):
                return True
            continue
        if builtins.isinstance(x, A.Nd):
            if c is np.ndarray:
                if not (t is A.Buf and x.is_scalar):
                    return True
            elif c is np.ma.MaskedArray:
                if t is A.MArr:
                    return True
            elif c is object:
                return True
            elif c in (_abc.Iterable, _abc.Sized, _abc.Container,
                       _abc.Collection):
                if x.shape or not x.is_scalar:
                    return True
            elif builtins.isinstance(c, type) and issubclass(
                    c, np.generic) and t is A.Buf and x.is_scalar:
                if issubclass(x.dtype.type, c):
                    return True
            elif c is float and t is A.Buf and x.is_scalar and \
                    x.dtype == np.dtype(float):
                return True
            continue
        if builtins.isinstance(x, npshim.SymUfunc):
            if c is np.ufunc or c is object:
                return True
            continue
        if builtins.isinstance(x, c):
            return True
    return False


_PLAIN = {int, float, str, bool, tuple, list, slice, dict, type(None),
          type(Ellipsis)}


def sx_type(*args):
    if len(args) != 1:
        return builtins.type(*args)
    x = args[0]
    t = builtins.type(x)
    if t is SymInt:
        return int if x.npdtype is None else x.npdtype.type
    if t is SymBool:
        return bool
    if t is SymReal:
        return float if x.npdtype is None else x.npdtype.type
    if t is SymRange:
        return tuple if x.kind == 'tuple' else range
    if t is A.Buf:
        return x.dtype.type if x.is_scalar else np.ndarray
    if t is A.Pull:
        return np.ndarray
    if t is A.MArr:
        return np.ma.MaskedArray
    return t


def sx_len(x):
    t = builtins.type(x)
    if t in (list, tuple, str, dict):
        return builtins.len(x)
    return slen(x)


def sx_range(*args):
    for a in args:
        if builtins.isinstance(a, SymInt):
            return SymRange.make(*args)
    return builtins.range(*args)


def sx_tuple(*args):
    if args and builtins.type(args[0]) is SymRange:
        return args[0].as_tuple()
    return builtins.tuple(*args)


def sx_list(*args):
    return builtins.list(*args)


def sx_int(*args):
    if len(args) == 1:
        x = args[0]
        if builtins.isinstance(x, SymInt):
            return SymInt(x.t)
        if builtins.isinstance(x, SymBool):
            return mk(num_term(x))
        if builtins.isinstance(x, SymReal):
            from .cells import trunc
            return trunc(x)
        if builtins.isinstance(x, A.Nd):
            if x.size != 1:
                raise TypeError('only size-1 arrays can be converted to '
                                'Python scalars')
            return sx_int(x.item())
        from fractions import Fraction
        if builtins.isinstance(x, Fraction):
            return int(x)
    return builtins.int(*args)


def sx_float(*args):
    if len(args) == 1:
        x = args[0]
        if builtins.isinstance(x, (SymInt, SymBool)):
            return mk(T.to_real(num_term(x)))
        if builtins.isinstance(x, SymReal):
            return SymReal(x.t)
        if builtins.isinstance(x, A.Nd) and x.size == 1:
            return sx_float(x.item())
    return builtins.float(*args)


def sx_bool(*args):
    if args and builtins.isinstance(args[0], SymBool):
        return args[0]
    return builtins.bool(*args)


def sx_max(*args, **kw):
    return _extreme(builtins.max, lambda a, b: a >= b, args, kw)


def sx_min(*args, **kw):
    return _extreme(builtins.min, lambda a, b: a <= b, args, kw)


def _extreme(real, cmp, args, kw):
    if kw:
        return real(*args, **kw)
    xs = builtins.list(args[0]) if len(args) == 1 else args
    if not any(builtins.isinstance(x, SymNum) for x in xs) or not all(
            builtins.isinstance(x, (SymNum, int, float, np.integer))
            for x in xs):
        return real(xs)
    r = xs[0]
    for x in xs[1:]:
        r = ite(cmp(r, x), r, x)
    return r


def sx_sum(it, start=0):
    r = start
    for x in it:
        if builtins.isinstance(x, (SymBool, bool, np.bool_)):
            x = mk(num_term(x))
        r = r + x
    return r


def sx_abs(x):
    return builtins.abs(x)


def sx_sorted(it, *a, **k):
    return builtins.sorted(it, *a, **k)


def sx_divmod(a, b):
    if builtins.isinstance(a, Sym) or builtins.isinstance(b, Sym):
        return a // b, a % b
    return builtins.divmod(a, b)


def sx_round(x, ndigits=None):
    if builtins.isinstance(x, Sym):
        if not builtins.isinstance(x, SymNum) or \
                builtins.isinstance(ndigits, Sym):
            raise Unsupported('round')
        if builtins.isinstance(x, SymInt) and (ndigits or 0) >= 0:
            return x
        # To the nearest, ties to even: the exact value, not the nearest
        # number of floating point.
        scale = fractions.Fraction(10) ** (ndigits or 0)
        t = num_term(x)
        t = T.mul(T.to_real(t), T.rconst(scale))
        low = T.floor_int(t)
        rest = T.sub(t, T.to_real(low))
        half = T.rconst(fractions.Fraction(1, 2))
        up = T.or_(T.lt(half, rest), T.and_(
            T.eq(half, rest), T.not_(T.eq0(T.imod(low, T.iconst(2))))))
        r = T.add(low, T.ite(up, T.iconst(1), T.iconst(0)))
        if ndigits is None:
            return mk(r)
        return mk(T.rdiv(T.to_real(r), T.rconst(scale)))
    return builtins.round(x, ndigits) if ndigits is not None else \
        builtins.round(x)


def sx_issubclass(a, b):
    def un(c):
        if builtins.isinstance(c, tuple):
            return tuple(un(i) for i in c)
        return c._sx_real if builtins.isinstance(c, ShimType) else c
    return builtins.issubclass(un(a), un(b))


def sx_str(*args):
    return builtins.str(*args)


def sx_hasattr(x, name):
    return builtins.hasattr(x, name)


def sx_any(it):
    for x in it:
        if x:
            return True
    return False


def sx_all(it):
    for x in it:
        if not x:
            return False
    return True


def sx_index(x):
    if builtins.isinstance(x, SymInt):
        return x
    import operator
    return operator.index(x)


def sx_slice_ctor(*args):
    return builtins.slice(*args)


CALLS = {
    isinstance: sx_isinstance, type: sx_type, len: sx_len, range: sx_range,
    tuple: sx_tuple, int: sx_int, float: sx_float, bool: sx_bool,
    max: sx_max, min: sx_min, sum: sx_sum, divmod: sx_divmod,
    round: sx_round, issubclass: sx_issubclass,
}
import operator as _operator  # noqa
CALLS[_operator.index] = sx_index

_CALLS_BY_ID = {id(k): v for k, v in CALLS.items()}


def sx_c(f):
    """Called on every callee that is a plain name or attribute."""
    return _CALLS_BY_ID.get(id(f), f)


def sx_mcall(obj, name, args, kw):
    """obj.name(*args, **kw) for the few methods which need help."""
    if builtins.isinstance(obj, slice) and name == 'indices':
        return slice_indices(obj, *args)
    if name == '__getitem__' and len(args) == 1 and not kw:
        if builtins.isinstance(obj, (tuple, list, np.ndarray, str)):
            return sx_gi(obj, args[0])
    return getattr(obj, name)(*args, **kw)


def _has_sym_key(k):
    if builtins.isinstance(k, (Sym, SymRange, A.Nd)):
        return True
    if builtins.type(k) is slice:
        return builtins.isinstance(k.start, Sym) or builtins.isinstance(
            k.stop, Sym) or builtins.isinstance(k.step, Sym)
    if builtins.type(k) in (tuple, list):
        return any(_has_sym_key(i) for i in k)
    return False


def sx_gi(x, k):
    """x[k] in load context."""
    t = builtins.type(x)
    if t in (list, tuple, str, range) or t is np.ndarray or \
            builtins.isinstance(x, (tuple, list)):
        if _has_sym_key(k):
            return _gi_real(x, k)
    elif builtins.isinstance(x, np.ndarray) and _has_sym_key(k):
        return _gi_real(x, k)
    return x[k]


def _gi_real(x, k):
    if builtins.isinstance(x, np.ndarray):
        if x.dtype.kind in 'biuf' and not builtins.isinstance(
                x, np.ma.MaskedArray) and _wants_model(x, k):
            return A.lift(x)[k]
        return x[A.buf_key(k, x.shape)]
    n = builtins.len(x)
    if builtins.type(k) is slice:
        return x[A.conc_slice(k, n)]
    if builtins.isinstance(k, SymInt):
        if not (k < n and k >= -n):
            # Let the sequence raise its own error.
            return x[n]
        if all(builtins.isinstance(v, (int, SymInt, np.integer)) and
               not builtins.isinstance(v, bool) for v in x):
            # A symbolic choice between integers.
            k = ite(k < 0, k + n, k)
            r = x[n - 1]
            for j in range(n - 2, -1, -1):
                r = ite(k == j, x[j], r)
            return r
        return x[int(k)]
    return x[k]


def _wants_model(x, k):
    if builtins.isinstance(k, SymInt) and x.ndim == 1:
        return False
    return False


def sx_si(x, k, v):
    """x[k] = v."""
    if builtins.isinstance(x, np.ndarray):
        if A.has_sym(v) and x.dtype.kind in 'biuf':
            raise Unsupported('symbolic value stored in a real array')
        if _has_sym_key(k):
            k = A.buf_key(k, x.shape)
    elif builtins.type(x) is list and _has_sym_key(k):
        if builtins.type(k) is slice:
            k = A.conc_slice(k, builtins.len(x))
    x[k] = v


_BIN = {'Add': _operator.add, 'Sub': _operator.sub, 'Mult': _operator.mul,
        'FloorDiv': _operator.floordiv, 'Div': _operator.truediv,
        'Mod': _operator.mod, 'BitAnd': _operator.and_,
        'BitOr': _operator.or_, 'BitXor': _operator.xor,
        'Pow': _operator.pow, 'MatMult': _operator.matmul,
        'LShift': _operator.lshift, 'RShift': _operator.rshift,
        'Lt': _operator.lt, 'LtE': _operator.le, 'Gt': _operator.gt,
        'GtE': _operator.ge}
_IBIN = {'Add': _operator.iadd, 'Sub': _operator.isub,
         'Mult': _operator.imul, 'FloorDiv': _operator.ifloordiv,
         'Div': _operator.itruediv, 'Mod': _operator.imod,
         'BitAnd': _operator.iand, 'BitOr': _operator.ior,
         'BitXor': _operator.ixor, 'Pow': _operator.ipow,
         'MatMult': _operator.imatmul, 'LShift': _operator.ilshift,
         'RShift': _operator.irshift}


def _lift_real(x, other):
    """A real array or NumPy scalar which meets a symbolic value."""
    if builtins.isinstance(x, np.generic):
        if builtins.isinstance(other, Sym):
            return x.item()
        if builtins.isinstance(other, A.Nd) and x.dtype.kind in 'biuf':
            return A.lift(x)
    elif builtins.isinstance(x, np.ndarray) and x.dtype.kind in 'biuf' and \
            builtins.isinstance(other, (Sym, A.Nd)):
        return A.lift(x)
    return x


_REAL = (np.ndarray, np.generic)


_CONVERSION = re.compile(r'%([-+ #0]*[0-9]*(?:[.][0-9]+)?)([a-zA-Z%])')


def sx_percent(text, args):
    """text % args, where some of the arguments may be symbolic."""
    if not builtins.isinstance(args, tuple):
        args = (args,)
    if builtins.isinstance(args[0] if args else None, dict) or \
            not builtins.any(builtins.isinstance(a, Sym) for a in args):
        return text % args
    new = []
    todo = list(args)

    def conv(m):
        if m.group(2) == '%' or not todo:
            return m.group(0)
        a = todo.pop(0)
        if not builtins.isinstance(a, Sym):
            new.append(a)
            return m.group(0)
        new.append(fmt(a, m.group(1) + m.group(2)
                       if m.group(2) not in 'sr' else ''))
        return '%s'
    text = _CONVERSION.sub(conv, text)
    return text % tuple(new + todo)


def sx_bin(op, a, b):
    if op == 'Mod' and builtins.isinstance(a, str):
        return sx_percent(a, b)
    if builtins.isinstance(a, _REAL):
        a = _lift_real(a, b)
    elif builtins.isinstance(b, _REAL):
        b = _lift_real(b, a)
    return _BIN[op](a, b)


def sx_ibin(op, a, b):
    if builtins.isinstance(a, _REAL):
        # An in-place operation on a real array would have to be visible
        # through its other names: only arrays made by the code under test
        # a moment ago get here (see npshim.array).
        a = _lift_real(a, b)
    elif builtins.isinstance(b, _REAL):
        b = _lift_real(b, a)
    return _IBIN[op](a, b)


def sx_enter(name):
    e = eng()
    if e is not None:
        e.funcs.add(name)


# ------------------------------------------------------------- rewriting

_SKIP = {'super', 'globals', 'locals', 'print', 'repr', 'str', 'id',
         'getattr', 'setattr', 'hasattr'}
_METHODS = {'indices', '__getitem__'}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []

    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in _METHODS and \
                not self._is_super(f.value) and \
                not any(isinstance(a, ast.Starred) for a in node.args) and \
                not node.keywords:
            self.generic_visit(node)
            f = node.func
            return ast.copy_location(ast.Call(
                func=self._name('__sx_m__'),
                args=[f.value, ast.Constant(value=f.attr),
                      ast.Tuple(elts=node.args, ctx=ast.Load()),
                      ast.Dict(keys=[], values=[])], keywords=[]), node)
        self.generic_visit(node)
        f = node.func
        if (isinstance(f, ast.Name) and f.id not in _SKIP) or \
                (isinstance(f, ast.Attribute) and f.attr in (
                    'sum', 'min', 'max', 'len', 'isinstance', 'range',
                    'index', 'abs', 'int', 'tuple')):
            node.func = ast.Call(func=self._name('__sx_c__'), args=[f],
                                 keywords=[])
        # map(f, ...), filter(f, ...): the callee is an argument.
        if (isinstance(f, ast.Name) and f.id in (
                'map', 'filter', 'reduce', 'imap', 'starmap')) or (
                isinstance(f, ast.Attribute) and f.attr in (
                    'map', 'filter', 'reduce', 'imap', 'starmap')):
            node.args[:1] = [self._arg(a) for a in node.args[:1]]
        for kw in node.keywords:
            if kw.arg in ('key', 'default_factory'):
                kw.value = self._arg(kw.value)
        return ast.copy_location(node, node)

    @staticmethod
    def _arg(a):
        if isinstance(a, ast.Name) and a.id in ('len', 'int', 'isinstance',
                                                'tuple', 'bool', 'float',
                                                'type', 'range', 'sum'):
            return ast.Call(func=ast.Name(id='__sx_c__', ctx=ast.Load()),
                            args=[a], keywords=[])
        return a

    @staticmethod
    def _is_super(v):
        return isinstance(v, ast.Call) and isinstance(v.func, ast.Name) \
            and v.func.id == 'super'

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(
                func=self._name('__sx_gi__'),
                args=[node.value, self._slice(node.slice)], keywords=[]),
                node)
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(value=None)
            return ast.Call(func=self._name('__sx_slice__'),
                            args=[s.lower or none, s.upper or none,
                                  s.step or none], keywords=[])
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[self._slice(e) for e in s.elts],
                             ctx=ast.Load())
        if s.__class__.__name__ == 'Index':
            return self._slice(s.value)
        return s

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0],
                                                 ast.Subscript):
            t = node.targets[0]
            value = self.visit(node.value)
            obj = self.visit(t.value)
            key = self._slice(self.visit(t.slice))
            return ast.copy_location(ast.Expr(value=ast.Call(
                func=self._name('__sx_si__'), args=[obj, key, value],
                keywords=[])), node)
        self.generic_visit(node)
        return node

    def _function(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        enter = ast.Expr(value=ast.Call(
            func=self._name('__sx_enter__'),
            args=[ast.Constant(value=self.modname + '.' +
                               '.'.join(self.stack))], keywords=[]))
        self.stack.pop()
        pos = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(
                node.body[0].value, ast.Constant) and isinstance(
                node.body[0].value.value, str):
            pos = 1
        ast.copy_location(enter, node)
        node.body.insert(pos, enter)
        return node

    visit_FunctionDef = _function

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(
            func=self._name('__sx_bin__'),
            args=[ast.Constant(value=type(node.op).__name__), node.left,
                  node.right], keywords=[]), node)

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if not isinstance(node.target, ast.Name):
            return node
        return ast.copy_location(ast.Assign(
            targets=[node.target],
            value=ast.Call(
                func=self._name('__sx_ibin__'),
                args=[ast.Constant(value=type(node.op).__name__),
                      self._name(node.target.id), node.value],
                keywords=[])), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if type(op).__name__ in _BIN:
                return ast.copy_location(ast.Call(
                    func=self._name('__sx_bin__'),
                    args=[ast.Constant(value=type(op).__name__), node.left,
                          node.comparators[0]], keywords=[]), node)
            if isinstance(op, (ast.Eq, ast.NotEq)):
                r = ast.Call(func=self._name('__sx_eq__'),
                             args=[node.left, node.comparators[0]],
                             keywords=[])
                if isinstance(op, ast.NotEq):
                    r = ast.Call(func=self._name('__sx_ne__'),
                                 args=[node.left, node.comparators[0]],
                                 keywords=[])
                return ast.copy_location(r, node)
        return node


def sx_eq(a, b):
    if builtins.type(a) is slice and builtins.type(b) is slice and (
            A.has_sym(a) or A.has_sym(b)):
        return bool(_part_eq(a.start, b.start)) and bool(
            _part_eq(a.stop, b.stop)) and bool(_part_eq(a.step, b.step))
    if builtins.isinstance(a, ShimType):
        a = a._sx_real
    if builtins.isinstance(b, ShimType):
        b = b._sx_real
    return a == b


def sx_ne(a, b):
    if builtins.type(a) is slice and builtins.type(b) is slice:
        return not sx_eq(a, b)
    return a != b


def _part_eq(a, b):
    if a is None or b is None:
        return a is b
    return a == b


# -------------------------------------------------------------- importing

class ModuleShim(object):
    """Attribute-wise overlay over a real module."""
    def __init__(self, real, **over):
        self.__dict__.update(over)
        self.__dict__['_sx_module'] = real

    def __getattr__(self, name):
        if name[:2] == '__' or '_sx_module' not in self.__dict__:
            raise AttributeError(name)
        return getattr(self.__dict__['_sx_module'], name)


def sx_permutation(*a):
    return itertools.permutations(*a)


class Package(object):
    """The `biggus` package, loaded for symbolic execution."""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.root = os.path.join(self.repo, 'biggus')
        self.modules = {}
        self.np = npshim.NP
        self.threading = sched.ThreadingShim()
        self.queue = sched.QueueShim()
        self.code = {}

    def fresh(self):
        """(Re-)initialise the package; code objects are kept."""
        self.modules = {}
        self.biggus = self.load('biggus')
        self.init = self.modules['biggus._init']
        return self

    def _path(self, name):
        parts = name.split('.')[1:]
        base = os.path.join(self.root, *parts)
        if os.path.isdir(base):
            return os.path.join(base, '__init__.py'), True
        if os.path.isfile(base + '.py'):
            return base + '.py', False
        return None, False

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        path, is_pkg = self._path(name)
        if path is None:
            raise ImportError(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if is_pkg else name.rpartition('.')[0]
        self.modules[name] = m
        code = self.code.get(name)
        if code is None:
            with open(path) as f:
                src = f.read()
            tree = ast.parse(src, path)
            tree = Rewriter(name).visit(tree)
            ast.fix_missing_locations(tree)
            # __import__ is looked up through this name.
            tree = ImportRewriter().visit(tree)
            ast.fix_missing_locations(tree)
            code = self.code[name] = compile(tree, path, 'exec',
                                             dont_inherit=True)
        g = m.__dict__
        g['__sx_c__'] = sx_c
        g['__sx_m__'] = sx_mcall
        g['__sx_gi__'] = sx_gi
        g['__sx_si__'] = sx_si
        g['__sx_eq__'] = sx_eq
        g['__sx_bin__'] = sx_bin
        g['__sx_ibin__'] = sx_ibin
        g['__sx_ne__'] = sx_ne
        g['__sx_slice__'] = slice
        g['__sx_enter__'] = sx_enter
        g['__sx_import__'] = functools.partial(self._import, m)
        g['__sx_star__'] = functools.partial(self._star, m)
        exec(code, g)
        parent, _, child = name.rpartition('.')
        if parent and parent in self.modules:
            setattr(self.modules[parent], child, m)
        return m

    def _resolve(self, name):
        if name == 'numpy':
            return npshim.NP
        if name == 'numpy.ma':
            return npshim.MA
        if name == 'numpy.lib.stride_tricks':
            return npshim.STRIDE_TRICKS
        if name == 'numpy.lib':
            return npshim.NP.lib
        if name == 'threading':
            return self.threading
        if name in ('queue', 'six.moves.queue', 'Queue'):
            return self.queue
        if name == 'six.moves.builtins':
            return builtins
        if name == 'biggus' or name.startswith('biggus.'):
            return self.load(name)
        if name == 'six.moves':
            import six
            return ModuleShim(six.moves, queue=self.queue)
        if name == 'six':
            import six
            return ModuleShim(six)
        if name == 'collections':
            return collections
        if name == 'copy':
            import copy
            return ModuleShim(copy)
        __import__(name)
        return sys.modules[name]

    def _import(self, mod, kind, name, attr=None, level=0):
        if level:
            base = mod.__package__.split('.')
            if level > 1:
                base = base[:-(level - 1)]
            name = '.'.join(base + ([name] if name else []))
        if kind == 'import':
            # import a.b.c binds a; import a.b as c binds a.b.
            m = self._resolve(name)
            if attr is None:
                top = name.split('.')[0]
                if top == 'biggus' or top == 'numpy':
                    return self._resolve(top)
                self._resolve(name)
                return self._resolve(top)
            return m
        m = self._resolve(name)
        try:
            return getattr(m, attr)
        except AttributeError:
            return self._resolve(name + '.' + attr)

    def _star(self, mod, name, level):
        m = self._import(mod, 'import', name, 'x', level)
        names = getattr(m, '__all__', None)
        if names is None:
            names = [n for n in vars(m) if not n.startswith('_')]
        for n in names:
            mod.__dict__[n] = getattr(m, n)


class ImportRewriter(ast.NodeTransformer):
    def visit_Import(self, node):
        out = []
        for a in node.names:
            target = a.asname or a.name.split('.')[0]
            args = [ast.Constant(value='import'), ast.Constant(value=a.name)]
            if a.asname:
                args.append(ast.Constant(value='x'))
            out.append(ast.copy_location(ast.Assign(
                targets=[ast.Name(id=target, ctx=ast.Store())],
                value=ast.Call(func=ast.Name(id='__sx_import__',
                                             ctx=ast.Load()),
                               args=args, keywords=[])), node))
        return out

    def visit_ImportFrom(self, node):
        if node.module == '__future__':
            return node
        out = []
        for a in node.names:
            if a.name == '*':
                out.append(ast.copy_location(ast.Expr(value=ast.Call(
                    func=ast.Name(id='__sx_star__', ctx=ast.Load()),
                    args=[ast.Constant(value=node.module or ''),
                          ast.Constant(value=node.level)], keywords=[])),
                    node))
                continue
            out.append(ast.copy_location(ast.Assign(
                targets=[ast.Name(id=a.asname or a.name, ctx=ast.Store())],
                value=ast.Call(
                    func=ast.Name(id='__sx_import__', ctx=ast.Load()),
                    args=[ast.Constant(value='from'),
                          ast.Constant(value=node.module or ''),
                          ast.Constant(value=a.name),
                          ast.Constant(value=node.level)], keywords=[])),
                node))
        return out
