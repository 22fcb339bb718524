"""
Terms of the symbolic executor: hash-consed, normalised as polynomials.

Sorts: 'I' (mathematical integer), 'R' (real), 'B' (bool).

* Numeric terms (`Num`) are polynomials over *atoms*: a mapping from a
  monomial (a sorted tuple of atoms, repeats allowed) to a coefficient.
  Coefficients are ints for sort I and Fractions for sort R.
* Atoms are variables, if-then-else, integer division/modulo, real
  division, uninterpreted applications and int->real coercions.
* Boolean terms (`Bool`) are constants, variables, comparisons of a `Num`
  with zero, and and/or/not.

Every simplification done here is an equivalence in linear/polynomial
arithmetic; anything else is left to the solver.
"""
from fractions import Fraction

_INF = float('inf')

_table = {}
_next_id = [0]


def _intern(key, make):
    t = _table.get(key)
    if t is None:
        t = make()
        _next_id[0] += 1
        t.id = _next_id[0]
        _table[key] = t
    return t


class Atom(object):
    __slots__ = ('id', 'op', 'args', 'sort', 'lo', 'hi', 'defined')

    def __lt__(self, other):
        return self.id < other.id

    def __repr__(self):
        if self.op == 'var':
            return self.args[0]
        return '%s%r' % (self.op, self.args)


class Num(object):
    __slots__ = ('id', 'sort', 'items', 'const', '_lo', '_hi')

    def __repr__(self):
        if self.const is not None:
            return str(self.const)
        return '+'.join('%s*%r' % (c, m) for m, c in self.items)


class Bool(object):
    __slots__ = ('id', 'op', 'args', 'defined')

    def __repr__(self):
        if self.op == 'const':
            return str(self.args[0])
        if self.op == 'var':
            return self.args[0]
        return '%s%r' % (self.op, self.args)


# ---------------------------------------------------------------- numbers

def _mk_num(sort, d):
    items = tuple(sorted(((m, c) for m, c in d.items() if c != 0),
                         key=_item_key))
    key = ('N', sort, items)
    t = _table.get(key)
    if t is not None:
        return t
    t = Num()
    t.sort = sort
    t.items = items
    if not items:
        t.const = 0 if sort == 'I' else Fraction(0)
    elif len(items) == 1 and items[0][0] == ():
        t.const = items[0][1]
    else:
        t.const = None
    t._lo = None
    t._hi = None
    _next_id[0] += 1
    t.id = _next_id[0]
    _table[key] = t
    return t


def _item_key(mc):
    return tuple(a.id for a in mc[0])


_icache = {}


def iconst(v):
    t = _icache.get(v)
    if t is None:
        t = _icache[v] = _mk_num('I', {(): v})
    return t


def rconst(v):
    return _mk_num('R', {(): Fraction(v)})


def atom_num(a):
    return _mk_num(a.sort, {(a,): 1 if a.sort == 'I' else Fraction(1)})


def bounds(n):
    """Interval enclosing every value of the term."""
    if n._lo is not None:
        return n._lo, n._hi
    lo = hi = 0
    for m, c in n.items:
        l = h = 1
        i = 0
        while i < len(m):
            a = m[i]
            k = 1
            while i + k < len(m) and m[i + k] is a:
                k += 1
            al, ah = a.lo, a.hi
            pl, ph = al, ah
            for _ in range(k - 1):
                pl, ph = _imul(pl, ph, al, ah)
            if k % 2 == 0 and pl < 0:
                pl = 0
            l, h = _imul(l, h, pl, ph)
            i += k
        if c < 0:
            l, h = _smul(h, c), _smul(l, c)
        else:
            l, h = _smul(l, c), _smul(h, c)
        lo = lo + l if lo != -_INF and l != -_INF else -_INF
        hi = hi + h if hi != _INF and h != _INF else _INF
    n._lo = lo
    n._hi = hi
    return lo, hi


def _smul(x, y):
    if x == 0 or y == 0:
        return 0
    if x in (_INF, -_INF) or y in (_INF, -_INF):
        return _INF if (x > 0) == (y > 0) else -_INF
    return x * y


def _imul(al, ah, bl, bh):
    ps = (_smul(al, bl), _smul(al, bh), _smul(ah, bl), _smul(ah, bh))
    return min(ps), max(ps)


def _coerce2(a, b):
    if a.sort != b.sort:
        return to_real(a), to_real(b)
    return a, b


def add(a, b):
    a, b = _coerce2(a, b)
    if a.const is not None and b.const is not None:
        return _mk_num(a.sort, {(): a.const + b.const})
    if a.const == 0:
        return b
    if b.const == 0:
        return a
    d = dict(a.items)
    for m, c in b.items:
        d[m] = d.get(m, 0) + c
    return _mk_num(a.sort, d)


def scale(a, k):
    if k == 1:
        return a
    return _mk_num(a.sort, {m: c * k for m, c in a.items})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    a, b = _coerce2(a, b)
    if a.const is not None:
        return scale(b, a.const)
    if b.const is not None:
        return scale(a, b.const)
    d = {}
    for m1, c1 in a.items:
        for m2, c2 in b.items:
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            d[m] = d.get(m, 0) + c1 * c2
    r = _mk_num(a.sort, d)
    return _square_sqrt(r)


def _square_sqrt(r):
    """Rewrite sqrt(x)*sqrt(x) to x (only built where x >= 0 is asserted)."""
    for m, c in r.items:
        for i in range(len(m) - 1):
            if m[i] is m[i + 1] and m[i].op == 'sqrt':
                rest = m[:i] + m[i + 2:]
                t = m[i].args[0]
                others = {mm: cc for mm, cc in r.items if mm != m}
                return add(_mk_num('R', others),
                           mul(_mk_num('R', {rest: c}), t))
    return r


def _mk_atom(op, args, sort, lo=-_INF, hi=_INF):
    def make():
        a = Atom()
        a.op = op
        a.args = args
        a.sort = sort
        a.lo = lo
        a.hi = hi
        a.defined = False
        return a
    return _intern(('A', op, args, sort), make)


def var(name, sort, lo=None, hi=None):
    """A variable (an atom for numeric sorts, a Bool for 'B')."""
    if sort == 'B':
        def make():
            b = Bool()
            b.op = 'var'
            b.args = (name,)
            b.defined = False
            return b
        return _intern(('Bv', name), make)
    a = _mk_atom('var', (name,), sort,
                 -_INF if lo is None else lo, _INF if hi is None else hi)
    return atom_num(a)


def to_real(a):
    if a.sort == 'R':
        return a
    d = {}
    for m, c in a.items:
        mm = tuple(sorted((_mk_atom('toreal', (x,), 'R', x.lo, x.hi)
                           for x in m), key=lambda x: x.id))
        d[mm] = d.get(mm, 0) + Fraction(c)
    return _mk_num('R', d)


def floor_int(a):
    """Largest integer not above the real term."""
    if a.sort == 'I':
        return a
    if a.const is not None:
        return iconst(a.const.numerator // a.const.denominator)
    # An exact integer polynomial written in reals?
    d = {}
    for m, c in a.items:
        if c.denominator != 1 or any(x.op != 'toreal' for x in m):
            break
        d[tuple(sorted((x.args[0] for x in m), key=lambda x: x.id))] = int(c)
    else:
        return _mk_num('I', d)
    lo, hi = bounds(a)
    return atom_num(_mk_atom('floor', (a,), 'I', _fl(lo), _fl(hi)))


def _fl(x):
    if x in (_INF, -_INF):
        return x
    return x // 1


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, Bool):
        return or_(and_(c, a), and_(not_(c), b))
    a, b = _coerce2(a, b)
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    # Pull the common part out so that normal forms stay close together.
    la, ha = bounds(a)
    lb, hb = bounds(b)
    return atom_num(_mk_atom('ite', (c, a, b), a.sort, min(la, lb),
                             max(ha, hb)))


def idiv(a, b):
    """Floor division (Python semantics) of integer terms."""
    if b.const is not None:
        k = b.const
        if k == 0:
            raise ZeroDivisionError
        if a.const is not None:
            return iconst(a.const // k)
        if k == 1:
            return a
        if k == -1:
            return neg(a)
        if k < 0:
            return idiv(neg(a), iconst(-k))
        # Split off the exactly divisible part.
        q = {}
        r = {}
        for m, c in a.items:
            if c % k == 0:
                q[m] = c // k
            else:
                r[m] = c
        if q:
            rr = _mk_num('I', r)
            if rr.const is not None:
                return add(_mk_num('I', q), iconst(rr.const // k))
            return add(_mk_num('I', q), idiv(rr, b))
        lo, hi = bounds(a)
        return atom_num(_mk_atom('div', (a, b), 'I',
                                 lo // k if lo != -_INF else lo,
                                 hi // k if hi != _INF else hi))
    if len(b.items) == 1 and b.items[0][0]:
        # A monomial: split off the exactly divisible part.
        (bm, bc), = b.items
        q = {}
        r = {}
        for m, c in a.items:
            rest = list(m)
            for x in bm:
                if x not in rest:
                    rest = None
                    break
                rest.remove(x)
            if rest is not None and c % bc == 0:
                q[tuple(rest)] = c // bc
            else:
                r[m] = c
        if q:
            return add(_mk_num('I', q), idiv(_mk_num('I', r), b))
        if a.const is not None and -max(bounds(b)[0], 1) <= a.const <= 0:
            return iconst(-1 if a.const else 0)
    lo, hi = bounds(b)
    # Only used with a divisor known to be positive (callers fork on sign).
    al, ah = bounds(a)
    if lo <= 0:
        lo = 1
    res_lo = al if al < 0 else 0
    res_hi = ah // lo if ah != _INF and ah >= 0 else (ah if ah == _INF else -1)
    return atom_num(_mk_atom('div', (a, b), 'I', res_lo, res_hi))


def imod(a, b):
    if b.const is not None and a.const is not None:
        return iconst(a.const % b.const)
    if b.const is not None:
        k = abs(b.const)
        lo, hi = bounds(a)
        if b.const > 0 and lo >= 0 and hi < k:
            return a
        # reduce coefficients
    return sub(a, mul(idiv(a, b), b))


def rdiv(a, b):
    a = to_real(a)
    b = to_real(b)
    if b.const is not None:
        return scale(a, 1 / b.const)
    if a is b:
        pass
    return mul(a, atom_num(_mk_atom('rinv', (b,), 'R')))


def sqrt(a):
    a = to_real(a)
    if a.const is not None:
        import math
        c = a.const
        if c >= 0:
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return rconst(Fraction(n, d))
    return atom_num(_mk_atom('sqrt', (a,), 'R', 0, _INF))


def uf(name, args, sort='R', lo=-_INF, hi=_INF):
    """Uninterpreted function application (sort 'I', 'R' or 'B')."""
    args = tuple(args)
    if sort == 'B':
        return _mk_bool('uf', (name,) + args)
    return atom_num(_mk_atom('uf', (name,) + args, sort, lo, hi))


# ------------------------------------------------------------------ bools

def _mk_bool(op, args):
    def make():
        b = Bool()
        b.op = op
        b.args = args
        b.defined = False
        return b
    return _intern(('B', op, args), make)


TRUE = _mk_bool('const', (True,))
FALSE = _mk_bool('const', (False,))


def bconst(v):
    return TRUE if v else FALSE


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'le':
        n = a.args[0]
        if n.sort == 'I':
            return le0(sub(iconst(1), n))
        return lt0(neg(n))
    if a.op == 'lt':
        return le0(neg(a.args[0]))
    return _mk_bool('not', (a,))


def and_(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        ys = x.args if x.op == 'and' else (x,)
        for y in ys:
            if y.id not in seen:
                if not_(y).id in seen:
                    return FALSE
                seen.add(y.id)
                out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda b: b.id)
    return _mk_bool('and', tuple(out))


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def _gcd_norm(n):
    """Divide by the gcd of the coefficients (sign kept)."""
    from math import gcd
    if n.sort == 'I':
        g = 0
        for m, c in n.items:
            if m != ():
                g = gcd(g, abs(c))
        return g
    return None


def le0(n):
    """n <= 0"""
    if n.const is not None:
        return bconst(n.const <= 0)
    lo, hi = bounds(n)
    if hi <= 0:
        return TRUE
    if lo > 0:
        return FALSE
    if n.sort == 'I':
        g = _gcd_norm(n)
        if g > 1:
            d = {}
            for m, c in n.items:
                if m == ():
                    d[m] = -((-c) // g)     # ceil(c/g)
                else:
                    d[m] = c // g
            n = _mk_num('I', d)
    else:
        n = _real_norm(n)
    return _mk_bool('le', (n,))


def _real_norm(n):
    lead = None
    for m, c in n.items:
        if m != ():
            lead = abs(c)
            break
    if lead is not None and lead != 1:
        n = scale(n, 1 / lead)
    return n


def lt0(n):
    if n.const is not None:
        return bconst(n.const < 0)
    if n.sort == 'I':
        return le0(add(n, iconst(1)))
    lo, hi = bounds(n)
    if hi < 0:
        return TRUE
    if lo >= 0:
        return FALSE
    n = _real_norm(n)
    if n in NONNEG:
        return FALSE
    return _mk_bool('lt', (n,))


# Terms known never to be negative (sums of squares).
NONNEG = set()


def nonneg(n):
    n = _real_norm(n)
    if n.const is None:
        NONNEG.add(n)


def eq0(n):
    if n.const is not None:
        return bconst(n.const == 0)
    lo, hi = bounds(n)
    if lo > 0 or hi < 0:
        return FALSE
    if n.sort == 'I':
        g = _gcd_norm(n)
        if g > 1:
            c0 = dict(n.items).get((), 0)
            if c0 % g:
                return FALSE
            n = _mk_num('I', {m: c // g for m, c in n.items})
    else:
        n = _real_norm(n)
    for m, c in n.items:
        if m != ():
            if c < 0:
                n = neg(n)
            break
    return _mk_bool('eq', (n,))


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def eq(a, b):
    if isinstance(a, Bool) or isinstance(b, Bool):
        return or_(and_(a, b), and_(not_(a), not_(b)))
    return eq0(sub(a, b))


# -------------------------------------------------------------- evaluation

class Undefined(Exception):
    pass


def evaluate(t, model, memo=None):
    """Value of a term under a model {variable name: value}."""
    if memo is None:
        memo = {}
    return _ev(t, model, memo)


def _ev(t, model, memo):
    k = t.id
    if k in memo:
        return memo[k]
    if isinstance(t, Num):
        if t.const is not None:
            v = t.const
        else:
            v = 0
            for m, c in t.items:
                p = c
                for a in m:
                    p = p * _ev(a, model, memo)
                v = v + p
    elif isinstance(t, Atom):
        op = t.op
        if op == 'var':
            v = model[t.args[0]]
        elif op == 'ite':
            v = _ev(t.args[1] if _ev(t.args[0], model, memo) else t.args[2],
                    model, memo)
        elif op == 'div':
            d = _ev(t.args[1], model, memo)
            if d == 0:
                raise Undefined
            v = _ev(t.args[0], model, memo) // d
        elif op == 'toreal':
            v = Fraction(_ev(t.args[0], model, memo))
        elif op == 'floor':
            v = _ev(t.args[0], model, memo) // 1
        elif op == 'rinv':
            d = _ev(t.args[0], model, memo)
            if d == 0:
                raise Undefined
            v = 1 / Fraction(d)
        else:
            raise Undefined
    else:
        op = t.op
        if op == 'const':
            v = t.args[0]
        elif op == 'var':
            v = model[t.args[0]]
        elif op == 'not':
            v = not _ev(t.args[0], model, memo)
        elif op == 'and':
            v = all(_ev(x, model, memo) for x in t.args)
        elif op == 'le':
            v = _ev(t.args[0], model, memo) <= 0
        elif op == 'lt':
            v = _ev(t.args[0], model, memo) < 0
        elif op == 'eq':
            v = _ev(t.args[0], model, memo) == 0
        else:
            raise Undefined
    memo[k] = v
    return v


# ------------------------------------------------------------------ SMT-LIB

def _lit(c, sort):
    if sort == 'I':
        return str(c) if c >= 0 else '(- %d)' % -c
    c = Fraction(c)
    s = '%d.0' % abs(c.numerator)
    if c.denominator != 1:
        s = '(/ %s %d.0)' % (s, c.denominator)
    return s if c >= 0 else '(- %s)' % s


class Printer(object):
    """Prints terms to SMT-LIB, declaring and defining names on first use."""

    def __init__(self, emit):
        self.emit = emit
        self.names = {}
        self.vars = {}
        self.side = []
        self.apps = {}

    def num(self, n):
        if n.const is not None:
            return _lit(n.const, n.sort)
        parts = []
        for m, c in n.items:
            if m == ():
                parts.append(_lit(c, n.sort))
                continue
            fs = [self.atom(a) for a in m]
            if c != 1:
                fs.insert(0, _lit(c, n.sort))
            parts.append(fs[0] if len(fs) == 1 else '(* %s)' % ' '.join(fs))
        return parts[0] if len(parts) == 1 else '(+ %s)' % ' '.join(parts)

    def atom(self, a):
        nm = self.names.get(a.id)
        if nm is not None:
            return nm
        op = a.op
        srt = 'Int' if a.sort == 'I' else 'Real'
        if op == 'var':
            nm = '|%s|' % a.args[0]
            self.emit('(declare-const %s %s)' % (nm, srt))
            self.vars[a.args[0]] = a.sort
        else:
            nm = 'a%d' % a.id
            if op == 'ite':
                body = '(ite %s %s %s)' % (self.bool(a.args[0]),
                                           self.num(a.args[1]),
                                           self.num(a.args[2]))
            elif op == 'div':
                # SMT-LIB div floors for positive divisors.
                body = '(div %s %s)' % (self.num(a.args[0]),
                                        self.num(a.args[1]))
            elif op == 'toreal':
                body = '(to_real %s)' % self.atom(a.args[0])
            elif op == 'floor':
                body = '(to_int %s)' % self.num(a.args[0])
            elif op == 'rinv':
                body = '(/ 1.0 %s)' % self.num(a.args[0])
            elif op == 'sqrt':
                # Some non-negative function of x; that its square is x is
                # used by the normal form of products only (asserting it
                # makes every query non-linear).
                self.emit('(define-fun %s () Real %s)' % (
                    nm, self.app(('sqrt', a.args[0]), 'Real')))
                self.names[a.id] = nm
                self.side.append('(>= %s 0.0)' % nm)
                return nm
            elif op == 'uf':
                body = self.app(a.args, srt)
                # The interval attached to the atom is a fact about it.
                if a.lo != -_INF:
                    self.side.append('(<= %s %s)' % (_lit(a.lo, a.sort),
                                                     body))
                if a.hi != _INF:
                    self.side.append('(<= %s %s)' % (body,
                                                     _lit(a.hi, a.sort)))
            else:
                raise NotImplementedError(op)
            self.emit('(define-fun %s () %s %s)' % (nm, srt, body))
        self.names[a.id] = nm
        return nm

    def app(self, args, srt):
        name = args[0]
        sorts = []
        out = []
        for x in args[1:]:
            if isinstance(x, Bool):
                sorts.append('Bool')
                out.append(self.bool(x))
            else:
                sorts.append('Int' if x.sort == 'I' else 'Real')
                out.append(self.num(x))
        sig = (name, tuple(sorts), srt)
        nm = self.names.get(sig)
        if nm is None:
            nm = '|f%d.%s|' % (len(self.names), name)
            self.emit('(declare-fun %s (%s) %s)' % (nm, ' '.join(sorts),
                                                    srt))
            self.names[sig] = nm
        if not out:
            return nm
        body = '(%s %s)' % (nm, ' '.join(out))
        if name.startswith('src:') or name.startswith('mask:'):
            self.apps[body] = (name, out, {'Int': 'I', 'Real': 'R',
                                           'Bool': 'B'}[srt])
        return body

    def bool(self, b):
        nm = self.names.get(b.id)
        if nm is not None:
            return nm
        op = b.op
        if op == 'const':
            return 'true' if b.args[0] else 'false'
        if op == 'var':
            nm = '|%s|' % b.args[0]
            self.emit('(declare-const %s Bool)' % nm)
            self.vars[b.args[0]] = 'B'
            self.names[b.id] = nm
            return nm
        if op == 'not':
            return '(not %s)' % self.bool(b.args[0])
        if op in ('le', 'lt', 'eq'):
            n = b.args[0]
            return '(%s %s %s)' % ({'le': '<=', 'lt': '<', 'eq': '='}[op],
                                   self.num(n), _lit(0, n.sort))
        if op == 'uf':
            body = self.app(b.args, 'Bool')
        else:
            body = '(and %s)' % ' '.join(self.bool(x) for x in b.args)
        nm = 'b%d' % b.id
        self.emit('(define-fun %s () Bool %s)' % (nm, body))
        self.names[b.id] = nm
        return nm
