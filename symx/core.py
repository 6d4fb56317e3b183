"""Symbolic execution of real Python code by proxy values and path exploration.

The code under test is the imported /repo code itself.  It is called with proxy
objects (SInt, SReal, SBool) that carry z3 terms.  Every time the code needs a
concrete truth value (``if``, ``while``, ``and``, ``assert``, ``sorted`` ...) the
solver is asked which outcomes are feasible under the path condition; all of
them are explored by re-execution.  When the code needs a concrete integer
(index, range, hash, slice) the path is split over every value the solver finds
feasible.  Properties are z3 queries: path condition and negated assertion.
"""
import math
import time
import fractions
import numbers
import opcode
import re
import sys

import z3

Fraction = fractions.Fraction


class Abort(BaseException):
    """Ends the current path (infeasible assumption, or pruned)."""


class Unsupported(BaseException):
    """The path left the encodable fragment."""


class PathLimit(BaseException):
    pass


_engine = None


def engine():
    return _engine


# --------------------------------------------------------------------------
# term helpers
# --------------------------------------------------------------------------

def is_sym(x):
    return isinstance(x, (SNum, SBool))


def _frac(x):
    if isinstance(x, float):
        return Fraction(x)
    return Fraction(x)


def real_term(x):
    """z3 Real term for a proxy or number."""
    if isinstance(x, SReal):
        return x.t
    if isinstance(x, SInt):
        return z3.ToReal(x.t)
    if isinstance(x, SBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, numbers.Integral):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    f = float(x)
    if math.isinf(f) or math.isnan(f):
        raise Unsupported('non-finite constant in a term')
    return z3.RealVal(str(nice_fraction(f)))


def nice_fraction(f):
    """The decimal the programmer wrote (0.1 -> 1/10) or the quotient of small
    numbers that was computed (1/3), not its binary value."""
    if f == int(f) and abs(f) < 1e15:
        return Fraction(int(f))
    r = repr(f)
    if len(r) > 15 and 1e-9 < abs(f) < 1e9:
        q = Fraction(f).limit_denominator(1000)
        if float(q) == f:
            return q
    return Fraction(repr(f)) if abs(f) < 1e300 else Fraction(f)


def int_term(x):
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def bool_term(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, SNum):
        return x.t != 0
    return z3.BoolVal(bool(x))


def is_number(x):
    return isinstance(x, (numbers.Number,)) or hasattr(x, 'dtype') and getattr(x, 'shape', None) == ()


def _special(x):
    """float inf/nan marker or None"""
    if isinstance(x, (SNum, SBool)):
        return None
    if isinstance(x, numbers.Integral):
        return None
    try:
        f = float(x)
    except (TypeError, ValueError):
        return None
    if math.isinf(f) or math.isnan(f):
        return f
    return None


def mk_real(t):
    t = z3.simplify(t)
    return SReal(t)


class SBool(object):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return engine().branch(self.t)

    def __and__(self, o):
        return SBool(z3.And(self.t, bool_term(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.t, bool_term(o)))
    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.t))

    def logical_not(self):
        return SBool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(self.t == bool_term(o))
        return self._num() == o

    def __ne__(self, o):
        return ~(self == o) if isinstance(self == o, SBool) else not (self == o)

    def __hash__(self):
        return hash(bool(self))

    def _num(self):
        return SInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o): return self._num() + o
    __radd__ = __add__
    def __mul__(self, o): return self._num() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __lt__(self, o): return self._num() < o
    def __gt__(self, o): return self._num() > o
    def __le__(self, o): return self._num() <= o
    def __ge__(self, o): return self._num() >= o
    def __index__(self): return int(bool(self))
    def __int__(self): return int(bool(self))
    def __float__(self): return float(bool(self))
    def __repr__(self): return 'SBool(%s)' % self.t
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


class SNum(object):
    __slots__ = ()

    # numpy calls these for ufuncs on object arrays
    def log(self): return fn_log(self)
    def log10(self): return fn_log(self) / fn_log(10)
    def log2(self): return fn_log(self) / fn_log(2)
    def exp(self): return fn_exp(self)
    def sqrt(self): return fn_sqrt(self)
    def tanh(self): return fn_uf('tanh', self)
    def conjugate(self): return self
    def isfinite(self): return True

    def item(self): return self

    def tolist(self): return self

    @property
    def size(self): return 1

    @property
    def shape(self): return ()

    @property
    def ndim(self): return 0

    def astype(self, dtype): return to_dtype(self, dtype)

    def _arith(self, o, op, reflected=False):
        if isinstance(o, SBool):
            o = o._num()
        if not isinstance(o, SNum) and not isinstance(o, numbers.Number) and not is_number(o):
            return NotImplemented
        sp = _special(o)
        if sp is not None:
            return special_arith(self, sp, op, reflected)
        a, b = (o, self) if reflected else (self, o)
        return arith(a, b, op)

    def __add__(self, o): return self._arith(o, '+')
    def __radd__(self, o): return self._arith(o, '+', True)
    def __sub__(self, o): return self._arith(o, '-')
    def __rsub__(self, o): return self._arith(o, '-', True)
    def __mul__(self, o): return self._arith(o, '*')
    def __rmul__(self, o): return self._arith(o, '*', True)
    def __truediv__(self, o): return self._arith(o, '/')
    def __rtruediv__(self, o): return self._arith(o, '/', True)
    def __floordiv__(self, o): return self._arith(o, '//')
    def __rfloordiv__(self, o): return self._arith(o, '//', True)
    def __mod__(self, o): return self._arith(o, '%')
    def __rmod__(self, o): return self._arith(o, '%', True)
    def __divmod__(self, o): return (self // o, self % o)
    def __rdivmod__(self, o): return (o // self, o % self)

    def __pow__(self, o): return power(self, o)
    def __rpow__(self, o): return power(o, self)

    def __neg__(self):
        if isinstance(self, SReal):
            return SReal(z3.simplify(-self.n), self.d)
        return SInt(z3.simplify(-self.t))

    def __pos__(self): return self

    def __abs__(self):
        return ite(self >= 0, self, -self)

    def _cmp(self, o, op):
        if o is None or isinstance(o, str):
            return NotImplemented
        if isinstance(o, SBool):
            o = o._num()
        if not isinstance(o, SNum) and not is_number(o):
            return NotImplemented
        sp = _special(o)
        if sp is not None:
            if math.isnan(sp):
                return op == '!='
            return {'<': sp > 0, '<=': sp > 0, '>': sp < 0, '>=': sp < 0,
                    '==': False, '!=': True}[op]
        if isinstance(self, SReal) and isinstance(o, SReal) and self.n.eq(o.n) and len(self.d) == len(o.d) \
                and not minus(self.d, o.d):
            return op in ('==', '<=', '>=')
        if (isinstance(self, SReal) and self.d) or (isinstance(o, SReal) and o.d):
            a, b, den = common(self, o)
            if op in ('==', '!='):
                diff = z3.simplify(a - b, som=True)
                if z3.is_rational_value(diff):
                    z = diff.numerator_as_long() == 0
                    return z if op == '==' else not z
                a, b = diff, z3.RealVal(0)
            else:
                for f in den:
                    sg = engine().sign(f)
                    if sg < 0:
                        a, b = b, a
                    elif sg == 0:
                        a, b = a * f, b * f
                if engine().naming:
                    # positive for syntactic reasons
                    if positive(z3.simplify(a - b, som=True)):
                        return op in ('>', '>=')
                    if positive(z3.simplify(b - a, som=True)):
                        return op in ('<', '<=')
        else:
            a, b = coerce2(self, o)
        if op == '<': r = a < b
        elif op == '<=': r = a <= b
        elif op == '>': r = a > b
        elif op == '>=': r = a >= b
        elif op == '==': r = a == b
        else: r = a != b
        r = z3.simplify(r)
        if z3.is_true(r): return True
        if z3.is_false(r): return False
        return SBool(r)

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r

    def __bool__(self):
        t = z3.simplify(self.t != 0)
        return engine().branch(t)

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __str__(self):
        return engine().handle(self)

    def __repr__(self):
        s = str(self.t)
        return '%s(%s)' % (type(self).__name__, s if len(s) < 60 else s[:60] + '...')

    def __format__(self, spec):
        """Text with a handle that the patched int()/float() read back.  A
        precision in the format specification rounds."""
        m = re.match(r'^[<>=^]?[ +-]?0?\d*(?:\.(\d+))?([a-zA-Z]?)$', spec)
        if not m:
            raise Unsupported('format ' + spec)
        x = self
        if m.group(2) == 'd' and not isinstance(self, SInt):
            raise ValueError('d format of a real')
        if m.group(2) in 'fF' and m.group(2):
            n = int(m.group(1)) if m.group(1) is not None else 6
            sc = z3.RealVal(10 ** n)
            x = SReal(z3.ToReal(z3.ToInt(real_term(self) * sc + z3.RealVal('1/2'))) / sc)
        elif m.group(1) is not None:
            raise Unsupported('format ' + spec)
        return engine().handle(x)


class SInt(SNum):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __hash__(self): return hash(engine().concretize_int(self.t))
    def __index__(self): return engine().concretize_int(self.t)
    def __int__(self): return engine().concretize_int(self.t)
    def __float__(self): return float(engine().concretize_int(self.t))
    def __round__(self, n=None): return self
    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def is_integer(self): return True


_MOD = [i for i, n in enumerate(opcode._nb_ops) if n[1] in ('%', '%=')]


def _formatting(frame):
    """the frame is evaluating text % values"""
    code, i = frame.f_code.co_code, frame.f_lasti
    return code[i] == opcode.opmap['BINARY_OP'] and code[i + 1] in _MOD


class SReal(SNum):
    """A quotient n / (d1 * d2 * ...) of z3 terms; the factors of the
    denominator are nonzero on the path that created them."""
    __slots__ = ('n', 'd', '_t')

    def __init__(self, t, d=()):
        self.n = t
        self.d = d
        self._t = None if d else t

    @property
    def t(self):
        if self._t is None:
            self._t = self.n / prod(self.d)
        return self._t

    def __hash__(self): return hash(engine().concretize_real(self.t))

    def __float__(self):
        if engine().opaque_text and _formatting(sys._getframe(1)):
            return 0.0      # digits of a log message, which the scenario does not look at
        return float(engine().concretize_real(self.t))

    def __int__(self):
        t = self.t
        tr = z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
        return engine().concretize_int(z3.simplify(tr))

    def __trunc__(self):
        t = self.t
        return SInt(z3.simplify(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))))

    def __floor__(self): return SInt(z3.ToInt(self.t))
    def __ceil__(self): return SInt(-z3.ToInt(-self.t))

    def __round__(self, n=None):
        if n is not None:
            s = 10 ** int(n)
            return SReal(z3.simplify(z3.ToReal(z3.ToInt(self.t * s + z3.RealVal('1/2'))) / s))
        t = self.t
        fl = z3.ToInt(t)
        d = t - z3.ToReal(fl)
        half = z3.RealVal('1/2')
        return SInt(z3.simplify(z3.If(d < half, fl, z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))))

    def is_integer(self):
        return SBool(z3.ToReal(z3.ToInt(self.t)) == self.t)


def prod(ts):
    r = None
    for t in ts:
        r = t if r is None else r * t
    return z3.RealVal(1) if r is None else r


def quot(x):
    """(numerator term, denominator factors)"""
    if isinstance(x, SReal):
        return x.n, x.d
    return real_term(x), ()


def minus(xs, ys):
    """multiset difference of factor tuples"""
    rest = list(xs)
    for y in ys:
        for i, x in enumerate(rest):
            if x.eq(y):
                del rest[i]
                break
    return tuple(rest)


def common(a, b):
    """numerators over a common denominator, and that denominator"""
    (n1, d1), (n2, d2) = quot(a), quot(b)
    if not d1 and not d2:
        return n1, n2, ()
    e1, e2 = minus(d1, d2), minus(d2, d1)
    if e2:
        n1 = n1 * prod(e2)
    if e1:
        n2 = n2 * prod(e1)
    return n1, n2, tuple(d1) + e2


def is_one(t):
    return z3.is_rational_value(t) and t.numerator_as_long() == t.denominator_as_long()


def cancel(n, d):
    """drop factors that cancel"""
    if z3.is_rational_value(n) and n.numerator_as_long() == 0:
        return SReal(n)
    out = []
    for f in d:
        if z3.is_rational_value(f):
            n = z3.simplify(n / f)
        elif n.eq(f):
            n = z3.RealVal(1)
        elif z3.is_app_of(n, z3.Z3_OP_MUL) and any(c.eq(f) for c in n.children()):
            ch = list(n.children())
            for i, c in enumerate(ch):
                if c.eq(f):
                    del ch[i]
                    break
            n = prod(ch)
        else:
            out.append(f)
    return SReal(n, tuple(out))


def coerce2(a, b):
    """two z3 terms of the same arithmetic sort"""
    ai = isinstance(a, SInt) or (not isinstance(a, SReal) and isinstance(a, (numbers.Integral,)))
    bi = isinstance(b, SInt) or (not isinstance(b, SReal) and isinstance(b, (numbers.Integral,)))
    if ai and bi:
        return int_term(a), int_term(b)
    return real_term(a), real_term(b)


def is_int(a):
    return isinstance(a, SInt) or (not is_sym(a) and isinstance(a, numbers.Integral))


def as_num(t):
    """proxy or plain python number for an arithmetic z3 term"""
    if z3.is_int_value(t):
        return t.as_long()
    if t.sort() == z3.IntSort():
        return SInt(t)
    return SReal(t)


def arith(a, b, op):
    if op in '+-*' and ((isinstance(a, SReal) and a.d) or (isinstance(b, SReal) and b.d)):
        if op == '*':
            (n1, d1), (n2, d2) = quot(a), quot(b)
            return cancel(z3.simplify(cancel(n1, d2).n * cancel(n2, d1).n),
                          cancel(n1, d2).d + cancel(n2, d1).d)
        x, y, d = common(a, b)
        return cancel(z3.simplify(x + y if op == '+' else x - y), d)
    if op in '+-*':
        x, y = coerce2(a, b)
        if op == '+': r = x + y
        elif op == '-': r = x - y
        else: r = x * y
        r = z3.simplify(r)
        return SInt(r) if r.sort() == z3.IntSort() else SReal(r)
    # divisions
    zero = b == 0 if not is_positive(b) else False
    if isinstance(zero, SBool):
        zero = bool(zero)
    if zero:
        if engine().numpy_division:
            return div_zero(a)
        raise ZeroDivisionError('division by zero')
    if op == '/':
        (n1, d1), (n2, d2) = quot(a), quot(b)
        n2 = z3.simplify(n2)
        e1, e2 = minus(d1, d2), minus(d2, d1)
        n1 = z3.simplify(n1 * prod(e2)) if e2 else z3.simplify(n1)
        if z3.is_rational_value(n2):
            return cancel(z3.simplify(n1 / n2), e1)
        return cancel(n1, e1 + (n2,))
    if is_int(a) and is_int(b):
        x, y = int_term(a), int_term(b)
        yv = z3.simplify(y)
        if z3.is_int_value(yv):
            if yv.as_long() > 0:
                q = x / y
            else:
                q = (-x) / (-y)
        else:
            q = z3.If(y > 0, x / y, (-x) / (-y))
        q = z3.simplify(q)
        return SInt(q) if op == '//' else SInt(z3.simplify(x - q * y))
    x, y = real_term(a), real_term(b)
    q = z3.ToReal(z3.ToInt(x / y))
    return SReal(z3.simplify(q)) if op == '//' else SReal(z3.simplify(x - q * y))


def div_zero(a):
    pos = a > 0
    if bool(pos): return float('inf')
    neg = a < 0
    if bool(neg): return float('-inf')
    return float('nan')


def special_arith(x, sp, op, reflected):
    if math.isnan(sp):
        return float('nan')
    if op == '+': return sp
    if op == '-': return sp if reflected else -sp
    if op == '*':
        if bool(x > 0): return sp
        if bool(x < 0): return -sp
        return float('nan')
    if op == '/':
        if not reflected: return 0.0
        if bool(x > 0): return sp
        if bool(x < 0): return -sp
        return float('nan')
    raise Unsupported('infinite operand of ' + op)


def power(a, b):
    if not is_sym(b):
        if isinstance(b, numbers.Integral) or float(b).is_integer():
            n = int(b)
            if 0 <= n <= 8:
                r = 1
                for _ in range(n):
                    r = r * a
                return r
            if -8 <= n < 0:
                return 1.0 / power(a, -n)
        if float(b) == 0.5:
            return fn_sqrt(a)
    if not is_sym(a):
        # c ** y
        if float(a) == math.e:
            return fn_exp(b)
        if float(a) > 0:
            return fn_exp(b * fn_log(a))
    if isinstance(b, SInt):
        n = engine().concretize_int(b.t)
        return power(a, n)
    f = z3.Function('pow', z3.RealSort(), z3.RealSort(), z3.RealSort())
    return SReal(f(real_term(a), real_term(b)))


# --------------------------------------------------------------------------
# uninterpreted transcendental functions
# --------------------------------------------------------------------------

_UF = {}
UF_CONST = {}       # name of a constant -> float value (log 10 and the like)


def uf(name):
    if name not in _UF:
        _UF[name] = z3.Function('uf_' + name, z3.RealSort(), z3.RealSort())
    return _UF[name]


def uf_apply(name, t):
    """the application of an uninterpreted function; when the engine names
    terms, a constant defined by (function, argument) instead, with congruence
    added on demand"""
    eng = engine()
    k = (name, t.get_id())
    e = eng._apps.get(k)
    if not eng.naming:
        if e is None:
            e = eng._apps[k] = (name, t, uf(name)(t))
        return e[2]
    if e is None:
        c = z3.Real('%s!%d' % (name, len(eng._apps)))
        e = eng._apps[k] = (name, t, c)
        eng._app_of[c.get_id()] = e
        if name in ('exp', 'sigmoid'):
            eng._positive.add(c.get_id())
    return e[2]


def uf_arg(name, t):
    """x when the term is name(x), else None"""
    if z3.is_app(t) and t.num_args() == 1 and t.decl().eq(uf(name)):
        return t.arg(0)
    e = engine()._app_of.get(t.get_id())
    if e is not None and e[0] == name:
        return e[1]
    return None


def canon(t):
    return z3.simplify(t, som=True, sort_sums=True)


def name_term(x, canonical=False):
    """a constant that equals the real x (identical terms get the same constant)"""
    eng = engine()
    if not eng.naming or not isinstance(x, SReal) or x.d:
        return x
    t = canon(x.n) if canonical else x.n
    if t.num_args() == 0:
        return x
    k = ('n', t.get_id())
    e = eng._apps.get(k)
    if e is None:
        c = z3.Real('t!%d' % len(eng._apps))
        e = eng._apps[k] = (None, t, c)
        if positive(t):
            eng._positive.add(c.get_id())
        elif nonnegative(t):
            eng._nonneg.add(c.get_id())
        eng.axiom(c == t)
    return SReal(e[2])


def positive(t):
    """a term that is positive for syntactic reasons"""
    if z3.is_rational_value(t):
        return t.numerator_as_long() > 0
    if t.num_args() == 0:
        return t.get_id() in engine()._positive
    if z3.is_add(t):
        return all(nonnegative(c) for c in t.children()) and any(positive(c) for c in t.children())
    if z3.is_mul(t):
        return all(positive(c) for c in t.children())
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return positive(t.arg(1)) and positive(t.arg(2))
    return z3.is_app(t) and (t.decl().eq(uf('exp')) or t.decl().eq(uf('sigmoid')))


def nonnegative(t):
    """a term that is not negative for syntactic reasons"""
    if z3.is_rational_value(t):
        return t.numerator_as_long() >= 0
    if z3.is_add(t):
        return all(nonnegative(c) for c in t.children())
    if z3.is_mul(t) or z3.is_app_of(t, z3.Z3_OP_POWER):
        count, stack = {}, [(t, 1)]
        while stack:
            u, k = stack.pop()
            if z3.is_mul(u):
                stack.extend((c, k) for c in u.children())
            elif z3.is_app_of(u, z3.Z3_OP_POWER) and z3.is_rational_value(u.arg(1)) and u.arg(1).denominator_as_long() == 1 \
                    and u.arg(1).numerator_as_long() > 0:
                stack.append((u.arg(0), k * u.arg(1).numerator_as_long()))
            else:
                e = count.setdefault(u.get_id(), [u, 0])
                e[1] += k
        return all(n % 2 == 0 or nonnegative(u) for u, n in count.values())
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return nonnegative(t.arg(1)) and nonnegative(t.arg(2))
    if t.num_args() == 0:
        return t.get_id() in engine()._positive or t.get_id() in engine()._nonneg
    return positive(t)


def is_nonnegative(x):
    return isinstance(x, SReal) and nonnegative(x.n) and all(positive(f) for f in x.d)


def fn_uf(name, x):
    if not is_sym(x):
        return getattr(math, name)(x)
    return SReal(uf_apply(name, canon(real_term(x))))


def is_positive(x):
    return isinstance(x, SReal) and positive(x.n) and all(positive(f) for f in x.d)


def fn_log(x):
    sp = None if is_sym(x) else _special(x)
    if sp is not None:
        return sp if sp > 0 else float('nan')
    if not is_sym(x):
        x = float(x)
        if x == 0: return float('-inf')
        if x < 0: return float('nan')
        if x == 1: return 0.0
        t = real_term(x)
        r = uf_apply('log', t)
        for ax in const_bounds(r, math.log(x)):
            engine().axiom(ax)
        return SReal(r)
    eng = engine()
    if not is_positive(x) and not bool(x > 0):
        if bool(x == 0): return float('-inf')
        return float('nan')
    t = canon(real_term(x)) if engine().naming else z3.simplify(real_term(x))
    if uf_arg('exp', t) is not None:
        return SReal(uf_arg('exp', t))
    if z3.is_rational_value(t) and t.as_fraction() == 1:
        return 0.0
    r = uf_apply('log', t)
    if eng.once('log', t):
        for ax in log_axioms(t):
            eng.axiom(ax)
    return SReal(r)


def const_bounds(r, v):
    """r is v up to rounding"""
    lo, hi = Fraction(v) - Fraction(1, 10 ** 9) * (1 + abs(int(v))), Fraction(v) + Fraction(1, 10 ** 9) * (1 + abs(int(v)))
    lo, hi = Fraction(int(lo * 10 ** 9) - 1, 10 ** 9), Fraction(int(hi * 10 ** 9) + 1, 10 ** 9)
    return [r >= z3.RealVal(str(lo)), r <= z3.RealVal(str(hi))]


def log_axioms(t):
    r = uf_apply('log', t)
    return [z3.Implies(t == 1, r == 0), z3.Implies(t > 1, r > 0),
            z3.Implies(z3.And(t > 0, t < 1), r < 0)]


def exp_axioms(t):
    r = uf_apply('exp', t)
    # exp_points: integers n where exp(t) is compared to n and t to log n
    points = [(t >= real_term(math.log(n))) == (r >= n) for n in engine().exp_points]
    return points + [r > 0, z3.Implies(t == 0, r == 1), z3.Implies(t > 0, r > 1), z3.Implies(t < 0, r < 1)]


def fn_exp(x):
    if not is_sym(x):
        sp = _special(x)
        if sp is not None:
            return 0.0 if sp < 0 else sp
        if x == 0: return 1.0
        if engine().floats:
            return math.exp(x)
        t = real_term(x)
        r = uf_apply('exp', t)
        for ax in exp_axioms(t):
            engine().axiom(ax)
        return SReal(r)
    t = canon(real_term(x)) if engine().naming else z3.simplify(real_term(x))
    if uf_arg('log', t) is not None:
        return SReal(uf_arg('log', t))
    r = uf_apply('exp', t)
    if engine().once('exp', t):
        for ax in exp_axioms(t):
            engine().axiom(ax)
    return SReal(r)


def fn_sqrt(x):
    if not is_sym(x):
        return math.sqrt(x)
    eng = engine()
    if eng.naming and isinstance(x, SReal) and not x.d:
        x = SReal(canon(x.n))
    known = is_nonnegative(x)
    if not known and not bool(x >= 0):
        return float('nan')
    t = canon(real_term(x)) if eng.naming else z3.simplify(real_term(x))
    r = uf_apply('sqrt', t)
    if eng.naming:
        eng._nonneg.add(r.get_id())
        if known and is_positive(x):
            eng._positive.add(r.get_id())
    eng.axiom(z3.And(r >= 0, r * r == t))
    return SReal(r)


def to_dtype(x, dtype):
    """numpy conversion of a symbolic scalar"""
    import numpy
    try:
        kind = numpy.dtype(dtype).kind
    except TypeError:
        return x
    if isinstance(x, SBool):
        return x if kind == 'b' else (x._num() if kind in 'iu' else SReal(real_term(x)))
    if kind == 'f':
        x = x if isinstance(x, SReal) else SReal(real_term(x))
        size = numpy.dtype(dtype).itemsize
        return x if size > 4 else single_float(x) if size == 4 else half_float(x)
    if kind in 'iu':
        return narrow_int(x if isinstance(x, SInt) else x.__trunc__(), dtype)
    if kind == 'b':
        return x != 0
    return x


def half_float(x):
    """A 16-bit float has 11 significant bits.  Encoded for magnitudes in
    [2^-14, 2), coarser (2^-11 absolute) elsewhere."""
    if not is_sym(x):
        import numpy
        return float(numpy.float16(x))
    t = real_term(x)
    mag = z3.If(t < 0, -t, t)
    scale = z3.RealVal(2 ** 11)
    for e in range(-1, 14):
        scale = z3.If(mag < z3.Q(1, 2 ** e) if e >= 0 else mag < 2, z3.RealVal(2 ** (11 + e)), scale)
    return SReal(z3.ToReal(z3.ToInt(t * scale + z3.Q(1, 2))) / scale)


def single_float(x):
    """A 32-bit float has 24 significant bits.  Encoded for magnitudes in
    [1/16, 16), coarser (2^-20 absolute) above."""
    if not is_sym(x):
        import numpy
        return float(numpy.float32(x))
    t = real_term(x)
    mag = z3.If(t < 0, -t, t)
    scale = z3.RealVal(2 ** 20)
    for e in range(-3, 5):
        scale = z3.If(mag < z3.Q(1, 2 ** e) if e >= 0 else mag < 2 ** -e, z3.RealVal(2 ** (24 + e)), scale)
    return SReal(z3.ToReal(z3.ToInt(t * scale + z3.Q(1, 2))) / scale)


def narrow_int(x, dtype):
    """wraps a value to a type of at most 16 bits (wider types are taken to be
    wide enough)"""
    import numpy
    d = numpy.dtype(dtype)
    if d.kind not in 'iu' or d.itemsize > 2:
        return x
    lo, hi = int(numpy.iinfo(d).min), int(numpy.iinfo(d).max)
    if bool(x >= lo) and bool(x <= hi):
        return x
    return (x - lo) % (hi - lo + 1) + lo


def ite(c, a, b):
    """solver-level if-then-else"""
    if not isinstance(c, SBool):
        return a if c else b
    if _special(a) is not None or _special(b) is not None:
        return a if bool(c) else b
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return SBool(z3.simplify(z3.If(c.t, bool_term(a), bool_term(b))))
    if (isinstance(a, SReal) and a.d) or (isinstance(b, SReal) and b.d):
        x, y, d = common(a, b)
        return cancel(z3.simplify(z3.If(c.t, x, y)), d)
    x, y = coerce2(a, b)
    r = z3.simplify(z3.If(c.t, x, y))
    return SInt(r) if r.sort() == z3.IntSort() else SReal(r)


# --------------------------------------------------------------------------
# engine
# --------------------------------------------------------------------------

def median(xs):
    """the element with (n + 1) / 2 elements not greater and as many not smaller"""
    eng = engine()
    ts = [z3.simplify(real_term(x)) for x in xs]
    key = ('median', tuple(t.get_id() for t in ts))
    if key not in eng.memo:
        m = z3.Real('median!%d' % len(eng.memo))
        k = len(ts) // 2 + 1
        eng.add(z3.Or([m == t for t in ts]))
        eng.add(z3.PbGe([(t <= m, 1) for t in ts], k))
        eng.add(z3.PbGe([(t >= m, 1) for t in ts], k))
        eng.memo[key] = (m, ts)
    return SReal(eng.memo[key][0])


def pure_int(t):
    """a term without reals and uninterpreted functions"""
    stack, seen = [t], set()
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if u.sort().kind() not in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT) or len(seen) > 200:
            return False
        if u.num_args() and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return False
        stack.extend(u.children())
    return True


EXACT = {'log': math.log, 'exp': math.exp, 'tanh': math.tanh, 'sigmoid': lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.0}


def exact_lemmas(name, t, c, model):
    """bounds of an increasing function around the point of the model, when the model gives it a wrong value"""
    v, w = model.eval(t, model_completion=True), model.eval(c, model_completion=True)
    try:
        v, w = (x.approx(15).as_fraction() if z3.is_algebraic_value(x) else x.as_fraction() for x in (v, w))
    except (AttributeError, z3.Z3Exception):
        return []
    if (name == 'log' and v <= 0) or abs(v) > 500 and name != 'log':
        return []
    # a point nearby with a short representation
    p = v.limit_denominator(10 ** 6)
    if name == 'log' and p <= 0:
        return []
    try:
        y = EXACT[name](float(p))
    except (OverflowError, ValueError):
        return []
    slack = 1e-9 * (1 + abs(y))
    if abs(float(w) - y) <= 1e-6 * (1 + abs(y)) + abs(float(v - p)) * (1 + abs(y)) * 4:
        return []
    up, low = (z3.RealVal(str(Fraction(x).limit_denominator(10 ** 15))) for x in (y + 2 * slack, y - 2 * slack))
    P = z3.RealVal(str(p))
    res = [z3.Implies(t <= P, c <= up), z3.Implies(t >= P, c >= low)]
    if name == 'log':
        res.append(z3.Implies(t > 0, c <= up + (t - P) / P))
    elif name == 'exp':
        res.append(c >= low + low * (t - P) if y - 2 * slack > 0 else c > 0)
    return res


class Failure(object):
    def __init__(self, label, inputs, detail='', spec=None):
        self.spec = spec        # of the inputs, with what the path has fixed
        self.confirmed = None   # failures of the real code with these inputs
        self.label = label
        self.inputs = inputs
        self.detail = detail


class Engine(object):
    """Depth-first path exploration by re-execution."""

    def __init__(self, timeout_ms=20000, max_paths=200000, deadline=None, max_decisions=4000):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.max_decisions = max_decisions
        self.numpy_division = False
        self.stats = dict(paths=0, queries=0, solver_s=0.0, checks=0, unknown=0,
                          aborted=0, unsupported=0, branches=0, incomplete=[])
        self.failures = []
        self.reached = set()
        self.eager = True
        self.opaque_text = False
        self.naming = False
        self.exp_points = ()
        self.floats = False         # transcendental functions of given numbers are evaluated, not axiomatised
        self.name_softmax = False   # a constant for each output of a softmax

    # --- solver plumbing -------------------------------------------------
    def _new_solver(self):
        s = z3.Solver()
        s.set('timeout', self.timeout_ms)
        s.set('random_seed', 1)
        return s

    def _check(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        self.stats['queries'] += 1
        while r == z3.sat and self.naming and self._congruence(self.solver.model()):
            self.stats['refinements'] = self.stats.get('refinements', 0) + 1
            r = self.solver.check(*assumptions)
            self.stats['queries'] += 1
            if time.time() - t > 3 * self.timeout_ms / 1000:
                r = z3.unknown
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r

    def _congruence(self, model):
        """adds the congruence axioms of named applications that the model breaks"""
        seen = {}
        n = 0
        for name, t, c in list(self._apps.values()):
            if name is None:
                continue
            v = model.eval(t, model_completion=True)
            w = model.eval(c, model_completion=True)
            k = (name, v.get_id() if not z3.is_algebraic_value(v) else str(v))
            if k not in seen:
                seen[k] = (t, c, v, w)
                continue
            t2, c2, _, w2 = seen[k]
            if not w.eq(w2):
                self.solver.add(z3.Implies(t == t2, c == c2))
                n += 1
        return n

    def _refute(self, *assumptions):
        """z3's answer for a possible violation, with the values of the uninterpreted functions made exact where the model
        uses them: bounds that hold for the real function are added until the model agrees with it (or time runs out)"""
        r = self._check(*assumptions)
        start = time.time()
        budget = min(20.0, 90.0 - self.stats.get('exact_s', 0))
        while r == z3.sat and time.time() - start < budget:
            model = self.solver.model()
            lemmas = [l for name, t, c in list(self._apps.values()) if name in EXACT
                      for l in exact_lemmas(name, t, c, model)]
            if not lemmas:
                break
            self.stats['refinements'] = self.stats.get('refinements', 0) + 1
            for l in lemmas:
                self.solver.add(l)
            kept = self.model_inputs(model)
            r = self._check(*assumptions)
            if r == z3.unknown:
                self.stats['exact_s'] = self.stats.get('exact_s', 0) + time.time() - start
                return z3.sat, kept
        self.stats['exact_s'] = self.stats.get('exact_s', 0) + time.time() - start
        return r, self.model_inputs(self.solver.model()) if r == z3.sat else None

    def add(self, t):
        self.solver.add(t)
        if pure_int(t):
            self.isolver.add(t)

    def _icheck(self, t, *assumptions):
        """feasibility for an integer term: while terms are named, the integer
        constraints of the path decide (the real ones are far harder)"""
        if self.naming and pure_int(t):
            r = self.isolver.check(*assumptions)
            self.stats['queries'] += 1
            return r, self.isolver
        return self._check(*assumptions), self.solver

    def axiom(self, t):
        k = t.get_id()
        if k in self._axioms:
            return
        self._axioms[k] = t
        self.solver.add(t)

    def once(self, name, t):
        """whether this is the first time for the term on this path"""
        k = ('once', name, t.get_id())
        if k in self.memo:
            return False
        self.memo[k] = t
        return True

    # --- decisions -------------------------------------------------------
    def _next_decision(self):
        if self.deadline and time.time() > self.deadline:
            raise PathLimit('deadline')
        if self.pos >= self.max_decisions:
            raise Unsupported('too many decisions on one path')
        if self.pos < len(self.trail):
            return self.trail[self.pos]
        return None

    def branch(self, t):
        t = z3.simplify(t)
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        k = t.get_id()
        c = self._known.get(k)
        if c is not None:
            return c[1]
        d = self._next_decision()
        if d is None:
            self.stats['branches'] += 1
            can_t = self._icheck(t, t)[0] != z3.unsat
            can_f = self._icheck(t, z3.Not(t))[0] != z3.unsat if can_t else True
            if can_t and can_f:
                d = ['b', True, True]       # kind, value, has-alternative
            else:
                d = ['b', can_t, False]
            self.trail.append(d)
        elif d[0] != 'b':
            raise Unsupported('non-deterministic code under test')
        self.pos += 1
        v = d[1]
        self.add(t if v else z3.Not(t))
        self._known[k] = (t, v)
        n = z3.simplify(z3.Not(t))
        self._known[n.get_id()] = (n, not v)
        return v

    def sign(self, f):
        """sign of a nonzero denominator factor on this path: 1, -1 or 0 (open)"""
        k = ('s', f.get_id())
        c = self._known.get(k)
        if c is None:
            if positive(f):
                c = (f, 1)
            elif self._check(f < 0) == z3.unsat:
                c = (f, 1)
            elif self._check(f > 0) == z3.unsat:
                c = (f, -1)
            else:
                c = (f, 0)
            self._known[k] = c
        return c[1]

    def concretize_int(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        k = ('i', t.get_id())
        c = self._known.get(k)
        if c is not None:
            return c[1]
        d = self._next_decision()
        if d is None:
            r, sol = self._icheck(t)
            if r == z3.unknown:
                raise Unsupported('no value for an integer within the time limit')
            if r != z3.sat:
                raise Abort()
            v = sol.model().eval(t, model_completion=True).as_long()
            d = ['i', v, [v]]
            more = self._icheck(t, t != v)[0] != z3.unsat
            d.append(more)
            self.trail.append(d)
        elif d[0] != 'i':
            raise Unsupported('non-deterministic code under test')
        elif d[1] is None:
            # choose the next value
            excl = [t != x for x in d[2]]
            r, sol = self._icheck(t, *excl)
            if r == z3.unknown:
                raise Unsupported('no value for an integer within the time limit')
            if r != z3.sat:
                raise Abort()
            v = sol.model().eval(t, model_completion=True).as_long()
            d[1] = v
            d[2].append(v)
            d[3] = self._icheck(t, *(excl + [t != v]))[0] != z3.unsat
        self.pos += 1
        self.add(t == d[1])
        self._known[k] = (t, d[1])
        return d[1]

    def concretize_real(self, t):
        """Incomplete: continues with one model value only, and says so."""
        t = z3.simplify(t)
        if z3.is_rational_value(t):
            return t.as_fraction()
        k = ('r', t.get_id())
        c = self._known.get(k)
        if c is not None:
            return c[1]
        d = self._next_decision()
        if d is None:
            if self._check() != z3.sat:
                raise Abort()
            v = model_fraction(self.solver.model(), t)
            d = ['r', v]
            self.trail.append(d)
            if self._check(t != z3.RealVal(str(v))) != z3.unsat:
                self.note_incomplete('a real value was needed as a machine float')
        self.pos += 1
        self.solver.add(t == z3.RealVal(str(d[1])))
        self._known[k] = (t, d[1])
        return d[1]

    def handle(self, x):
        """a text token standing for a symbolic number"""
        for k, v in self.handles.items():
            if v.t.eq(x.t):
                return k
        k = '\u00a7%d\u00a7' % len(self.handles)
        self.handles[k] = x
        return k

    def unhandle(self, s):
        s = s.strip()
        if s in self.handles:
            return self.handles[s]
        if s.startswith('-') and s[1:] in self.handles:
            return -self.handles[s[1:]]
        if '\u00a7' in s:
            raise Unsupported('a text operation split a symbolic number: ' + s)
        return None

    def note_incomplete(self, why):
        if why not in self.stats['incomplete']:
            self.stats['incomplete'].append(why)

    def _backtrack(self):
        while self.trail:
            d = self.trail[-1]
            if d[0] == 'b' and d[2]:
                d[1] = not d[1]
                d[2] = False
                return True
            if d[0] == 'i' and d[3]:
                d[1] = None
                d[3] = False
                return True
            self.trail.pop()
        return False

    # --- exploration -----------------------------------------------------
    def explore(self, run, stop_after=2):
        """run(engine) executes one path."""
        global _engine
        self.trail = []
        self.gaps = []      # models of paths the encoding could not follow
        while True:
            self.pos = 0
            self.solver = self._new_solver()
            self.isolver = self._new_solver()
            self._axioms = {}
            self._known = {}
            self._apps = {}
            self._app_of = {}
            self._positive = set()
            self._nonneg = set()
            self.inputs = {}
            self.memo = {}
            self.bounds = {}
            self.handles = {}
            prev, _engine = _engine, self
            try:
                run(self)
                self.stats['paths'] += 1
            except Abort:
                self.stats['aborted'] += 1
            except Unsupported as e:
                self.stats['unsupported'] += 1
                self.note_incomplete('unsupported: %s' % e)
                if len(self.gaps) < 12:
                    try:
                        if self._check() == z3.sat:
                            self.gaps.append(self.model_inputs(self.solver.model()))
                    except z3.Z3Exception:
                        pass
                if self.stats['unsupported'] > 300:
                    return
            except PathLimit as e:
                self.note_incomplete('exploration stopped: %s' % e)
                return
            finally:
                _engine = prev
            if sum(bool(f.confirmed) for f in self.failures) >= stop_after or len(self.failures) >= 5 * stop_after:
                self.note_incomplete('stopped after %d counterexamples' % len(self.failures))
                return
            # drop decisions beyond pos (the run may have ended early)
            del self.trail[self.pos:]
            if not self._backtrack():
                return
            if self.stats['paths'] + self.stats['aborted'] >= self.max_paths:
                self.note_incomplete('path limit')
                return

    def model_inputs(self, model):
        res = {}
        for name, (kind, t) in self.inputs.items():
            if kind == 'int':
                res[name] = model.eval(t, model_completion=True).as_long()
            elif kind == 'bool':
                res[name] = z3.is_true(model.eval(t, model_completion=True))
            else:
                res[name] = str(model_fraction(model, t))
        return res

    def input_spec(self):
        """{name: (kind, low, high)}, with the values the path has fixed"""
        spec = dict(self.bounds)
        for name, (kind, t) in self.inputs.items():
            c = self._known.get(('i', t.get_id()))
            if kind == 'int' and c is not None:
                spec[name] = ('int', c[1], c[1])
            c = self._known.get(t.get_id())
            if kind == 'bool' and c is not None:
                spec[name] = ('bool', c[1], c[1])
        return spec

    def fail(self, label, detail='', extra=None):
        """record a counterexample candidate for the current path"""
        cons = [] if extra is None else [extra]
        r, inputs = self._refute(*cons)
        if r == z3.sat:
            self.failures.append(Failure(label, inputs, detail, self.input_spec()))
        elif r == z3.unsat:
            raise Abort()       # no input follows this path
        else:
            self.failures.append(Failure(label, None, detail, self.input_spec()))

    def check(self, cond, label, detail=''):
        self.stats['checks'] += 1
        if not isinstance(cond, SBool):
            if isinstance(cond, SNum):
                cond = cond != 0
            elif not cond:
                self.fail(label, detail)
                return False
            else:
                return True
        if not isinstance(cond, SBool):
            return self.check(cond, label, detail)
        t = z3.simplify(cond.t)
        if z3.is_true(t):
            self.stats['queries'] += 1
            return True
        neg = z3.Not(t)
        r, inputs = self._refute(neg)
        if r == z3.unsat:
            return True
        if r == z3.sat:
            self.failures.append(Failure(label, inputs, detail, self.input_spec()))
            return False
        self.failures.append(Failure(label + ' [solver: unknown]', None, detail, self.input_spec()))
        return False


def model_fraction(model, t):
    v = model.eval(t, model_completion=True)
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        return v.approx(12).as_fraction()
    raise Unsupported('model value %s' % v)
