"""Symbolic values.  Operators are overloaded; truth tests fork the current path."""
from __future__ import annotations

import math
from fractions import Fraction

import z3

E = None  # the running engine, set by engine.py
MISSING = object()


class Control(BaseException):
    """Engine control flow; never to be caught by verified code."""


class PathEnd(Control):
    pass


class Unsupported(Control):
    """The function left the subset the generator handles."""


class Failed(Control):
    """A named obligation was refuted on this path."""


class Sym:
    __slots__ = ()
    pytype: type = object

    def __hash__(self):
        if E is not None and E.hash_ok:
            return id(self) & 0xFFFFFFF
        raise Unsupported(f"hash of symbolic {type(self).__name__} in native code")

    def _no(self, what):
        raise Unsupported(f"{what} of symbolic {type(self).__name__} in native code")

    def __str__(self):
        self._no("str()")

    def __format__(self, spec):
        self._no("format()")

    def __int__(self):
        self._no("int()")

    def __float__(self):
        self._no("float()")

    def __len__(self):
        self._no("len()")

    def __iter__(self):
        self._no("iter()")

    def __repr__(self):
        return f"<{type(self).__name__}>"


def real_val(f):
    fr = Fraction(f)
    return z3.RealVal(fr)


def is_num(v):
    return isinstance(v, (bool, int, float, SBool, SInt, SReal)) and not (isinstance(v, float) and False)


def num(v):
    """z3 arithmetic expression of a numeric value (finite)."""
    if isinstance(v, (SInt, SReal)):
        return v.e
    if isinstance(v, SBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(int(v))
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            raise Unsupported("arithmetic of a symbolic number with inf/nan")
        return real_val(v)
    raise Unsupported(f"not a number: {type(v).__name__}")


def wrapnum(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    if e.is_int():
        return SInt(e)
    return SReal(e)


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def mkstr(e):
    e = z3.simplify(e)
    if z3.is_string_value(e):
        return zstr(e)
    return SStr(e)


def zstr(e):
    """Python str of a z3 string literal."""
    s = e.as_string()
    return unescape(s)


def unescape(s):
    out = []
    i = 0
    while i < len(s):
        if s.startswith("\\u{", i):
            j = s.index("}", i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def sval(s):
    out = []
    for ch in s:
        o = ord(ch)
        if o > 0x2FFFF:
            raise Unsupported("code point beyond the solver's alphabet")
        out.append(ch if 32 <= o < 127 and ch != "\\" else "\\u{%x}" % o)
    return z3.StringVal("".join(out))


def bexpr(v):
    """z3 Bool of a bool-like value that is already boolean."""
    if isinstance(v, SBool):
        return v.e
    if isinstance(v, bool):
        return z3.BoolVal(v)
    raise Unsupported("boolean expected")


class _NumOps(Sym):
    __slots__ = ()

    def __add__(self, o):
        return arith("+", self, o)

    def __radd__(self, o):
        return arith("+", o, self)

    def __sub__(self, o):
        return arith("-", self, o)

    def __rsub__(self, o):
        return arith("-", o, self)

    def __mul__(self, o):
        return arith("*", self, o)

    def __rmul__(self, o):
        return arith("*", o, self)

    def __truediv__(self, o):
        return arith("/", self, o)

    def __rtruediv__(self, o):
        return arith("/", o, self)

    def __floordiv__(self, o):
        return arith("//", self, o)

    def __rfloordiv__(self, o):
        return arith("//", o, self)

    def __mod__(self, o):
        return arith("%", self, o)

    def __rmod__(self, o):
        return arith("%", o, self)

    def __pow__(self, o):
        return arith("**", self, o)

    def __rpow__(self, o):
        return arith("**", o, self)

    def __lshift__(self, o):
        return arith("<<", self, o)

    def __rlshift__(self, o):
        return arith("<<", o, self)

    def __rshift__(self, o):
        return arith(">>", self, o)

    def __rrshift__(self, o):
        return arith(">>", o, self)

    def __and__(self, o):
        return arith("&", self, o)

    def __rand__(self, o):
        return arith("&", o, self)

    def __or__(self, o):
        return arith("|", self, o)

    def __ror__(self, o):
        return arith("|", o, self)

    def __xor__(self, o):
        return arith("^", self, o)

    def __rxor__(self, o):
        return arith("^", o, self)

    def __neg__(self):
        return wrapnum(-num(self))

    def __pos__(self):
        return wrapnum(num(self))

    def __abs__(self):
        e = num(self)
        return wrapnum(z3.If(e >= 0, e, -e))

    def __invert__(self):
        return wrapnum(-num(self) - 1)

    def __eq__(self, o):
        return compare("==", self, o)

    def __ne__(self, o):
        return compare("!=", self, o)

    def __lt__(self, o):
        return compare("<", self, o)

    def __le__(self, o):
        return compare("<=", self, o)

    def __gt__(self, o):
        return compare(">", self, o)

    def __ge__(self, o):
        return compare(">=", self, o)

    __hash__ = Sym.__hash__


class SBool(_NumOps):
    __slots__ = ("e",)
    pytype = bool

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.branch(self.e)

    def __index__(self):
        return int(E.branch(self.e))


class SInt(_NumOps):
    __slots__ = ("e",)
    pytype = int

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.branch(self.e != 0)

    def __index__(self):
        return E.concretize(self)

    # int methods
    def bit_length(self):
        raise Unsupported("bit_length")

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        if signed or isinstance(length, Sym):
            raise Unsupported("to_bytes signed")
        if E.branch(z3.Or(self.e < 0, self.e >= 2 ** (8 * length))):
            raise OverflowError("int too big to convert")
        return SBytesInt(self.e, length, byteorder)

    @property
    def value(self):
        raise AttributeError("'int' object has no attribute 'value'")

    real = property(lambda s: s)


class SIntOf(SInt):
    """A symbolic instance of an int subclass."""
    __slots__ = ("pytype",)


class SPoison(Sym):
    """A variable a loop may have changed and its invariant does not describe."""
    __slots__ = ()

    def __bool__(self):
        self._no("truth")


class SReal(_NumOps):
    __slots__ = ("e",)
    pytype = float

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.branch(self.e != 0)

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))


class SBytesInt(Sym):
    """int.to_bytes(n) of a symbolic int in range."""
    __slots__ = ("e", "length", "order")
    pytype = bytes

    def __init__(self, e, length, order):
        self.e, self.length, self.order = e, length, order

    def __bool__(self):
        return self.length > 0

    def __eq__(self, o):
        if isinstance(o, SBytesInt):
            if o.length != self.length:
                return False
            if o.order != self.order:
                raise Unsupported("byte orders")
            return mkbool(self.e == o.e)
        if isinstance(o, bytes):
            if len(o) != self.length:
                return False
            return mkbool(self.e == int.from_bytes(o, self.order))
        return False

    def __ne__(self, o):
        return negate(self.__eq__(o))

    __hash__ = Sym.__hash__


def negate(v):
    if isinstance(v, SBool):
        return mkbool(z3.Not(v.e))
    if isinstance(v, Sym):
        return mkbool(z3.Not(E.truth_expr(v)))
    return not v


def floordiv(a, b):
    # Python floor division on Int terms
    return z3.If(b > 0, a / b, (-a) / (-b))


def arith(op, a, b):
    if isinstance(a, (SStr, str)) or isinstance(b, (SStr, str)):
        return NotImplemented
    if not is_num(a) or not is_num(b):
        if E is not None and (isinstance(a, Sym) and not is_num(a) or isinstance(b, Sym) and not is_num(b)):
            return NotImplemented
        if op == "*" and isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            return NotImplemented
        raise TypeError(f"unsupported operand type(s) for {op}")
    for x, y in ((a, b), (b, a)):
        if isinstance(x, float) and (math.isinf(x) or math.isnan(x)) and isinstance(y, Sym):
            if math.isnan(x):
                return x
            if op == "+":
                return x
            if op == "-":
                return x if x is a else -x
            raise Unsupported("arithmetic with inf")
    isint = not (isinstance(a, (float, SReal)) or isinstance(b, (float, SReal)))
    x, y = num(a), num(b)
    if op in "+-*" and len(op) == 1:
        if not isint:
            x = z3.ToReal(x) if x.is_int() else x
            y = z3.ToReal(y) if y.is_int() else y
        return wrapnum(x + y if op == "+" else x - y if op == "-" else x * y)
    if op == "/":
        if E.branch(y == 0):
            raise ZeroDivisionError("division by zero")
        x = z3.ToReal(x) if x.is_int() else x
        y = z3.ToReal(y) if y.is_int() else y
        return SReal(z3.simplify(x / y))
    if op == "**":
        if isinstance(b, int) and 0 <= b <= 4:
            r = z3.IntVal(1) if isint else z3.RealVal(1)
            for _ in range(b):
                r = r * x
            return wrapnum(r)
        if isinstance(a, int) and a == 2 and isint:
            k = E.concretize(b)
            return 2 ** k
        raise Unsupported("power")
    if not isint:
        if op == "//" or op == "%":
            if E.branch(y == 0):
                raise ZeroDivisionError("float modulo")
            x = z3.ToReal(x) if x.is_int() else x
            y = z3.ToReal(y) if y.is_int() else y
            q = z3.ToReal(z3.ToInt(x / y))
            return SReal(z3.simplify(q if op == "//" else x - q * y))
        raise TypeError(f"unsupported operand type(s) for {op}: float")
    if op in ("//", "%"):
        if E.branch(y == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        q = floordiv(x, y) if not (z3.is_int_value(y) and y.as_long() > 0) else x / y
        return wrapnum(q if op == "//" else x - q * y)
    if op in ("<<", ">>"):
        if isinstance(b, Sym) and op == ">>" and isint and getattr(E, "symbolic_shifts", False):
            if E.branch(y < 0):
                raise ValueError("negative shift count")
            return shifted(x, y)
        if isinstance(b, Sym):
            b = E.concretize(b)
        if b < 0:
            raise ValueError("negative shift count")
        return wrapnum(x * 2 ** b if op == "<<" else x / (2 ** b))
    if op in ("&", "|", "^"):
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            p, q = bexpr(a), bexpr(b)
            return mkbool(z3.And(p, q) if op == "&" else z3.Or(p, q) if op == "|" else z3.Xor(p, q))
        if isinstance(a, Sym) and isinstance(b, Sym):
            raise Unsupported("bit operation on two symbolic integers")
        s, c = (x, int(b)) if isinstance(a, Sym) else (y, int(a))
        land = bit_and_const(s, c)
        if op == "&":
            return wrapnum(land)
        if op == "|":
            return wrapnum(s + c - land)
        return wrapnum(s + c - 2 * land)
    raise Unsupported(f"operator {op}")


SHIFT = z3.Function("shr", z3.IntSort(), z3.IntSort(), z3.IntSort())


def shifted(x, y):
    """x >> y for a symbolic y >= 0: a function of which only assumed instances of its definition are known."""
    x, y = z3.simplify(x), z3.simplify(y)
    if z3.is_int_value(y) and y.as_long() <= 1:
        return wrapnum(x / 2 if y.as_long() else x)
    E.solver.add(z3.Implies(y == 0, SHIFT(x, y) == x))
    return wrapnum(SHIFT(x, y))


def bit_and_const(s, c):
    """s & c for a symbolic Int s and a constant c (two's complement semantics)."""
    if c < 0:
        # s & c == s - (s & ~c)
        return s - bit_and_const(s, ~c)
    terms = []
    i = 0
    while c >> i:
        if not (c >> i) & 1:
            i += 1
            continue
        j = i
        while (c >> j) & 1:
            j += 1
        # bits i..j-1
        terms.append(((s / (2 ** i)) % (2 ** (j - i))) * 2 ** i)
        i = j
    r = z3.IntVal(0)
    for t in terms:
        r = r + t
    return r


class SFloat(SReal):
    """A positive finite double known by its bits; comparing positive doubles is comparing their bits."""
    __slots__ = ("bits",)

    def __init__(self, e, bits):
        self.e, self.bits = e, bits


def float_bits(v):
    if isinstance(v, SFloat):
        return v.bits
    if isinstance(v, (int, float)) and not isinstance(v, bool) and v >= 0 and (isinstance(v, float) or abs(v) < 2 ** 53):
        import struct
        return z3.IntVal(struct.unpack("<Q", struct.pack("<d", float(v) + 0.0))[0])
    return None


def compare(op, a, b):
    if isinstance(a, SFloat) or isinstance(b, SFloat):
        x, y = float_bits(a), float_bits(b)
        if x is not None and y is not None:
            return mkbool({"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op])
        for p, q, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
            if isinstance(p, SFloat) and isinstance(q, (int, float)) and q < 0:
                return {"==": False, "!=": True, "<": False, "<=": False, ">": True, ">=": True}[o]
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)) and op in ("==", "!="):
        e = bexpr(a) == bexpr(b)
        return mkbool(e if op == "==" else z3.Not(e))
    if is_num(a) and is_num(b):
        for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
            # x o y with x concrete inf/nan, y symbolic (finite)
            if isinstance(x, float) and isinstance(y, Sym) and (math.isinf(x) or math.isnan(x)):
                if math.isnan(x):
                    return op == "!="
                if o == "==":
                    return False
                if o == "!=":
                    return True
                return (x < 0) if o in ("<", "<=") else (x > 0)
        x, y = num(a), num(b)
        if op == "==":
            return mkbool(x == y)
        if op == "!=":
            return mkbool(x != y)
        return mkbool(x < y if op == "<" else x <= y if op == "<=" else x > y if op == ">" else x >= y)
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        x, y = strexpr(a), strexpr(b)
        if op == "==":
            return mkbool(x == y)
        if op == "!=":
            return mkbool(x != y)
        return mkbool(x < y if op == "<" else x <= y if op == "<=" else y < x if op == ">" else y <= x)
    if op == "==":
        return False
    if op == "!=":
        return True
    raise TypeError(f"'{op}' not supported between instances")


def strexpr(v):
    if isinstance(v, SStr):
        return v.e
    if isinstance(v, str):
        return sval(v)
    raise Unsupported(f"string expected, got {type(v).__name__}")


def intexpr(v):
    if isinstance(v, (SInt, SBool)):
        return num(v)
    if isinstance(v, int):
        return z3.IntVal(int(v))
    if hasattr(type(v), "__index__") and not isinstance(v, Sym):
        return z3.IntVal(v.__index__())
    raise TypeError("integer expected")


class SStr(Sym):
    __slots__ = ("e",)
    pytype = str

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E.branch(z3.Length(self.e) > 0)

    def __eq__(self, o):
        return compare("==", self, o)

    def __ne__(self, o):
        return compare("!=", self, o)

    def __lt__(self, o):
        return compare("<", self, o)

    def __le__(self, o):
        return compare("<=", self, o)

    def __gt__(self, o):
        return compare(">", self, o)

    def __ge__(self, o):
        return compare(">=", self, o)

    __hash__ = Sym.__hash__

    def __add__(self, o):
        if not isinstance(o, (str, SStr)):
            raise TypeError("can only concatenate str")
        return mkstr(z3.Concat(self.e, strexpr(o)))

    def __radd__(self, o):
        if not isinstance(o, (str, SStr)):
            raise TypeError("can only concatenate str")
        return mkstr(z3.Concat(strexpr(o), self.e))

    def __mod__(self, o):
        return E.opaque_str("percent")

    def __rmod__(self, o):
        return E.opaque_str("percent")

    def __contains__(self, o):
        return bool(mkbool(z3.Contains(self.e, strexpr(o))))


class SSeq(Sym):
    """Immutable sequence: length term and element function."""
    __slots__ = ("n", "at", "pytype", "name", "extra", "of_map", "keys_of")

    def __init__(self, n, at, pytype=list, name=None):
        self.n, self.at, self.pytype, self.name = n, at, pytype, name
        self.extra = self.of_map = self.keys_of = None

    def __bool__(self):
        return E.branch(self.nexpr() > 0)

    def nexpr(self):
        return self.n if z3.is_expr(self.n) else z3.IntVal(self.n)

    def length(self):
        return wrapnum(self.nexpr())

    def snapshot(self):
        return self

    def __len__(self):
        return E.concretize(SInt(self.nexpr()))


class SIter(Sym):
    """An iterator/generator over a symbolic sequence, at a position."""
    __slots__ = ("seq", "pos")
    pytype = type(iter([]))

    def __init__(self, seq):
        self.seq, self.pos = seq, 0

    def __bool__(self):
        return True
