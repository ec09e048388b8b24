"""The operations instrumented code performs (one method per construct)."""
from __future__ import annotations

import builtins
import collections
import collections.abc
import contextlib
import dataclasses
import enum
import functools
import operator
import os
import sys
import types

import z3

from . import sym as S
from . import pb as PB
from .containers import ESet, SList, SMap, SODict, iexpr, seq_concat, seq_of, seq_reversed, seq_slice
from .rewrite import NoSource, instrument, is_instrumented, key_of
from .sym import (Control, Failed, PathEnd, SBool, SBytesInt, SInt, SIntOf, SIter, SPoison, SReal, SSeq, SStr, Sym, Unsupported,
                  arith, bexpr, compare, intexpr, is_num, mkbool, mkstr, negate, num, strexpr, wrapnum)

MISSING = S.MISSING
NoneType = type(None)

_OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
        "%": operator.mod, "**": operator.pow, "<<": operator.lshift, ">>": operator.rshift, "&": operator.and_,
        "|": operator.or_, "^": operator.xor, "@": operator.matmul}
_IOPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "//": operator.ifloordiv,
         "%": operator.imod, "**": operator.ipow, "<<": operator.ilshift, ">>": operator.irshift, "&": operator.iand,
         "|": operator.ior, "^": operator.ixor, "@": operator.imatmul}

def FLOAT_TEXT(x):
    d = z3.Plus(z3.Range("0", "9"))
    opt = lambda r: z3.Option(r)
    return z3.InRe(x, z3.Concat(opt(z3.Re("-")), d, opt(z3.Concat(z3.Re("."), d)), opt(z3.Concat(z3.Re("e"), z3.Union(z3.Re("+"), z3.Re("-")), d))))


_DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow", "<<": "lshift",
           ">>": "rshift", "&": "and", "|": "or", "^": "xor", "@": "matmul"}
_CMPD = {"<": ("__lt__", "__gt__", operator.lt), "<=": ("__le__", "__ge__", operator.le), ">": ("__gt__", "__lt__", operator.gt),
         ">=": ("__ge__", "__le__", operator.ge)}

PRIM = (bool, int, float, str, bytes, NoneType)


def has_sym(v, depth=3):
    if isinstance(v, Sym):
        return True
    if depth <= 0 or isinstance(v, PRIM):
        return False
    t = type(v)
    if t in (list, tuple, set, frozenset, collections.deque) or isinstance(v, tuple):
        return any(has_sym(x, depth - 1) for x in tuple.__iter__(v)) if isinstance(v, tuple) else any(has_sym(x, depth - 1) for x in v)
    if isinstance(v, dict):
        return any(has_sym(k, depth - 1) or has_sym(x, depth - 1) for k, x in dict.items(v))
    if t is types.MappingProxyType:
        return any(has_sym(k, depth - 1) or has_sym(x, depth - 1) for k, x in v.items())
    return False


def sym_key(k):
    return has_sym(k, 4)


def dict_has_symkeys(d):
    return any(not isinstance(k, PRIM) and sym_key(k) for k in d)


class NativeLoop:
    hv = {}

    def __init__(self, it, limit=None, label=""):
        self.it = iter(it)
        self.limit = limit

    def more(self, loc):
        try:
            self.item = next(self.it)
        except StopIteration:
            return False
        return True

    def leave(self):
        pass


class NS:
    """Locals visible to an invariant."""

    def __init__(self, d):
        self.__dict__.update(d)

    def __getattr__(self, n):
        raise Unsupported(f"loop invariant mentions {n}, which the loop does not have")


class SymLoop:
    def __init__(self, eng, label, seq, names, inv, is_while=False):
        self.E, self.label, self.seq, self.inv = eng, label, seq, inv
        # "~name": changed in place only; replaced by arbitrary contents where the invariant says how
        self.names = [n.lstrip("~") for n in names if not n.startswith("~") or n[1:] in inv.locals_]
        self.in_place = {n[1:] for n in names if n.startswith("~") and n[1:] in inv.locals_}
        self.phase = 0
        self.hv = {}
        self.item = None
        self.frame = None
        self.is_while = is_while

    def _env(self, loc):
        d = {k: v for k, v in loc.items() if not k.startswith("__p")}
        d.update(self.hv)
        return NS(d)

    def more(self, loc):
        E = self.E
        if self.phase == 1:
            self.hv = {}
            if self.is_while and self.inv.decreases is not None:
                m = self.inv.decreases(self._env(loc))
                E.check(E.cmp("<", m, self.measure), self.label + ":terminates")
            E.check_clauses(self.inv.clauses(self._env(loc), wrapnum(self.i + 1)), self.label + ":preserved")
            raise PathEnd()
        known = len(E.fresh_ids)
        E.check_clauses(self.inv.clauses(self._env(loc), 0), self.label + ":established")
        for k in list(E.fresh_ids)[known:]:
            del E.fresh_ids[k]  # what only the invariant made must not keep the code's objects shared
        n = None if self.is_while else self.seq.nexpr()
        c = 0 if self.is_while else E.choose(2)
        self.hv = {}
        for nm in self.names:
            if nm in self.in_place and nm in loc and not isinstance(loc[nm], Sym) and sys.getrefcount(loc[nm]) > 3 + (id(loc[nm]) in E.fresh_ids):
                # only this function may know the object, or others would keep seeing its old contents
                raise Unsupported(f"{nm} is changed in the loop and shared with others ({self.label})")
            if nm in self.inv.locals_:
                self.hv[nm] = self.inv.locals_[nm](E.name(nm))
            elif nm in loc:
                self.hv[nm] = E.havoc_value(loc[nm], nm)
        made = []
        E.havocked_fields = []
        for havoc in self.inv.modifies:
            v = havoc(self._env(loc)) if havoc.__code__.co_argcount else havoc()
            made += v if isinstance(v, list) else [v]
        self.made = made
        self.frame = Frame(E.epoch, self.inv.mod_ids() | {id(v) for v in [*self.hv.values(), *made] if isinstance(v, Sym)} | {id(v) for v in made if isinstance(v, (dict, list))} | {(id(o), a) for o, a in E.havocked_fields}, self.label)
        self.havocked = E.havocked_fields
        E.epoch += 1
        self.frame.epoch = E.epoch
        i = z3.Int(E.name("it"))
        self.i = i
        E.solver.add(i >= 0)
        if self.is_while:
            E.assume_clauses(self.inv.clauses(self._env(loc), wrapnum(i)))
            if self.inv.decreases is not None:
                self.measure = self.inv.decreases(self._env(loc))
                E.check(E.cmp(">=", self.measure, 0), self.label + ":bounded-below")
            self.phase = 1
            E.frames.append(self.frame)
            return True
        if c == 0:
            E.solver.add(i < n)
            if not E._sat():
                raise PathEnd()
            E.assume_clauses(self.inv.clauses(self._env(loc), wrapnum(i)))
            self.phase = 1
            E.frames.append(self.frame)
            self.item = self.seq.at(i)
            return True
        E.solver.add(i == n)
        E.assume_clauses(self.inv.clauses(self._env(loc), wrapnum(i)))
        E.after_inv = True
        self.phase = 2
        return False

    def leave(self):
        if self.phase == 1 and self.frame in self.E.frames:
            self.E.frames.remove(self.frame)
            self.E.after_inv = True
        self.phase = 3


class Frame:
    def __init__(self, epoch, mod_ids, label):
        self.epoch, self.mod_ids, self.label = epoch, mod_ids, label


class WhileLoop:
    hv = {}

    def __init__(self, eng, label, limit):
        self.E, self.label, self.limit, self.n = eng, label, limit, 0

    def more(self, loc):
        self.n += 1
        if self.n > self.limit:
            self.E.over_unroll(self.label)
        return True

    def leave(self):
        pass


class _CM:
    """Context manager protocol through instrumented __enter__/__exit__."""

    __slots__ = ("eng", "cm")

    def __init__(self, eng, cm):
        self.eng, self.cm = eng, cm

    def __enter__(self):
        m = self.eng.type_lookup(type(self.cm), "__enter__")
        if m is None:
            raise TypeError("object does not support the context manager protocol")
        return self.eng.call(m, self.cm)

    def __exit__(self, t, v, tb):
        if t is not None and issubclass(t, Control):
            return False
        m = self.eng.type_lookup(type(self.cm), "__exit__")
        return self.eng.t(self.eng.call(m, self.cm, t, v, tb))


class BoundModel:
    """Attribute access on a symbolic value that is a method."""

    def __init__(self, eng, obj, name):
        self.eng, self.obj, self.name = eng, obj, name

    def __call__(self, *a, **k):
        return self.eng.cm(self.obj, self.name, *a, **k)


class Hooks:
    # ---------------------------------------------------------------- truth
    def t(self, v):
        if v is True or v is False:
            return v
        if isinstance(v, Sym):
            return self.branch(self.truth_expr(v))
        if isinstance(v, PRIM):
            return bool(v)
        m = self.py_method(v, "__bool__")
        if m is not None:
            return self.t(self.call(m, v))
        if self.type_lookup(type(v), "__bool__") is None:
            m = self.py_method(v, "__len__")
            if m is not None:
                return self.t(self.cmp("!=", self.call(m, v), 0))
        return bool(v)

    # ---------------------------------------------------------------- attributes
    def ga(self, obj, name):
        if isinstance(obj, Sym):
            return self.sym_attr(obj, name)
        t = type(obj)
        if isinstance(obj, (types.ModuleType, type, super, types.FunctionType)):
            return getattr(obj, name)
        if self.guards:
            self.check_guard(obj, name, False)
        d = self.type_lookup(t, name)
        if isinstance(d, property) and d.fget is not None:
            f = d.fget
            while not isinstance(f, types.FunctionType) and hasattr(f, "__wrapped__"):
                f = f.__wrapped__
            if isinstance(f, types.FunctionType) and (self.in_scope(f) or hasattr(f, "__wrapped__")):
                return self.call(f, obj)
        elif isinstance(d, functools.cached_property) and name not in getattr(obj, "__dict__", {}):
            if self.in_scope(d.func):
                v = self.call(d.func, obj)
                self.sa(obj, name, v)
                return v
        gattr = self.type_lookup(t, "__getattribute__")
        if isinstance(gattr, types.FunctionType) and self.in_scope(gattr):
            return self.call(gattr, obj, name)
        g = self.type_lookup(t, "__getattr__")
        if isinstance(g, types.FunctionType) and self.in_scope(g):
            try:
                return object.__getattribute__(obj, name)
            except AttributeError:
                return self.call(g, obj, name)
        return getattr(obj, name)

    def sym_attr(self, obj, name):
        pt = obj.pytype
        if name == "__class__":
            return pt
        if isinstance(obj, SIntOf):
            d = self.type_lookup(pt, name)
            if isinstance(d, property):
                return self.call(d.fget, obj)
            if isinstance(d, types.FunctionType):
                return functools.partial(self.call, d, obj)
            if d is not None and not callable(d) and not hasattr(d, "__get__"):
                return d
        if isinstance(obj, (SInt, SBool)) and name in ("real", "numerator"):
            return obj
        if isinstance(obj, SList) and name == "maxlen":
            return obj.maxlen
        if hasattr(obj, "sym_getattr"):
            return obj.sym_getattr(name)
        if isinstance(obj, SPoison):
            raise Unsupported("use of a value the loop invariant says nothing about")
        if not hasattr(pt, name):
            raise AttributeError(f"'{pt.__name__}' object has no attribute '{name}'")
        return BoundModel(self, obj, name)

    def check_guard(self, obj, name, write):
        lk = self.guards.get((id(obj), name))
        if lk is not None and (write or lk[1]) and not lk[0]():
            self.fail_now(f"lock-discipline:{type(obj).__name__}.{name}", "field accessed without its lock")

    def sa(self, obj, name, v):
        if isinstance(obj, Sym):
            if hasattr(obj, "sym_setattr"):
                return obj.sym_setattr(name, v)
            raise AttributeError(name)
        t = type(obj)
        if self.guards:
            self.check_guard(obj, name, True)
        sattr = self.type_lookup(t, "__setattr__")
        if isinstance(sattr, types.FunctionType) and self.in_scope(sattr):
            return self.call(sattr, obj, name, v)
        d = self.type_lookup(t, name)
        if isinstance(d, property):
            if d.fset is None:
                raise AttributeError(f"property '{name}' of '{t.__name__}' object has no setter")
            return self.call(d.fset, obj, v)
        if isinstance(obj, (types.ModuleType, type)):
            key = ("a", id(obj), name)
            if key not in self.snap_ids:
                self.snap_ids.add(key)
                old = obj.__dict__.get(name, MISSING)
                self.undo.append(lambda: setattr(obj, name, old) if old is not MISSING else delattr(obj, name))
            return setattr(obj, name, v)
        self.touch(obj, "obj", name)
        setattr(obj, name, v)

    def da(self, obj, name):
        d = self.type_lookup(type(obj), "__delattr__")
        if isinstance(d, types.FunctionType) and self.in_scope(d):
            return self.call(d, obj, name)
        self.touch(obj, "obj", name)
        delattr(obj, name)

    def super_(self, cls, obj):
        return super(cls, obj)

    # ---------------------------------------------------------------- items
    def norm_index(self, i, n):
        """Valid non-negative index term for a sequence of length n, or IndexError."""
        e = intexpr(i)
        n = iexpr(n)
        if not (z3.is_int_value(z3.simplify(e)) and z3.simplify(e).as_long() >= 0):
            e = e + n if self.branch(e < 0) else e
        e = z3.simplify(e)
        if self.branch(z3.Or(e < 0, e >= n)):
            raise IndexError("index out of range")
        return e

    def slice_bounds(self, sl, n):
        if sl.step not in (None, 1):
            raise Unsupported("slice step")
        n = iexpr(n)

        def clamp(v, dflt):
            if v is None:
                return dflt
            e = intexpr(v)
            e = z3.If(e < 0, z3.If(e + n < 0, 0, e + n), z3.If(e > n, n, e))
            return z3.simplify(e)

        lo = clamp(sl.start, z3.IntVal(0))
        hi = clamp(sl.stop, n)
        hi = z3.simplify(z3.If(hi < lo, lo, hi))
        return lo, hi

    def gi(self, obj, idx):
        if isinstance(obj, Sym):
            return self.sym_getitem(obj, idx)
        m = self.py_method(obj, "__getitem__")
        if m is not None:
            return self.call(m, obj, idx)
        if isinstance(obj, type):
            return obj[idx]
        if obj is os.environ:
            return self.container_method(obj, "__getitem__", (idx,), {})
        t = type(obj)
        if isinstance(obj, (dict, types.MappingProxyType)):
            if sym_key(idx) or dict_has_symkeys(obj):
                k = self.dict_find(obj, idx)
                if k is MISSING:
                    mm = self.type_lookup(t, "__missing__")
                    if mm is not None:
                        if t is collections.defaultdict:
                            v = self.call(obj.default_factory)
                            self.si(obj, idx, v)
                            return v
                        return self.call(mm, obj, idx)
                    raise KeyError(idx)
                return self._dget(obj, k)
            if t is collections.defaultdict and idx not in obj and obj.default_factory is not None:
                v = self.call(obj.default_factory)
                self.si(obj, idx, v)
                return v
            return obj[idx]
        if isinstance(obj, (list, tuple, collections.deque)):
            if isinstance(idx, slice) and (isinstance(idx.start, Sym) or isinstance(idx.stop, Sym)):
                lo, hi = self.slice_bounds(idx, len(obj))
                lo, hi = self.concretize(SInt(lo)), self.concretize(SInt(hi))
                return self.new(obj[lo:hi]) if isinstance(obj, list) else obj[lo:hi]
            if isinstance(idx, SBool):
                idx = SInt(num(idx))
            if isinstance(idx, SInt):
                k = self.norm_index(idx, len(obj))
                return seq_of(obj).at(k)
            r = obj[idx]
            if isinstance(idx, slice) and isinstance(obj, list):
                self.new(r)
            return r
        if isinstance(obj, str):
            if isinstance(idx, slice) and (isinstance(idx.start, Sym) or isinstance(idx.stop, Sym)) or isinstance(idx, Sym):
                return self.sym_getitem(SStr(strexpr(obj)), idx)
        if has_sym(idx) and not isinstance(obj, PRIM):
            raise Unsupported(f"subscript of {t.__name__} by a symbolic value")
        return obj[idx]

    def _dget(self, d, k):
        self_ok, self.hash_ok = self.hash_ok, True
        try:
            return dict.__getitem__(d, k) if isinstance(d, dict) else d[k]
        finally:
            self.hash_ok = self_ok

    def _dset(self, d, k, v):
        self_ok, self.hash_ok = self.hash_ok, True
        try:
            if isinstance(d, collections.OrderedDict):
                collections.OrderedDict.__setitem__(d, k, v)
            else:
                dict.__setitem__(d, k, v)
        finally:
            self.hash_ok = self_ok

    def _ddel(self, d, k):
        self_ok, self.hash_ok = self.hash_ok, True
        try:
            if isinstance(d, collections.OrderedDict):
                collections.OrderedDict.__delitem__(d, k)
            else:
                dict.__delitem__(d, k)
        finally:
            self.hash_ok = self_ok

    def dict_find(self, d, k):
        """The key object of d equal to k (forking), or MISSING."""
        if not sym_key(k) and not dict_has_symkeys(d):
            if not isinstance(k, PRIM) and self.unhashable(k):
                raise TypeError(f"unhashable type: '{type(k).__name__}'")
            return k if k in d else MISSING
        if self.unhashable(k):
            raise TypeError(f"unhashable type: '{self.pytype(k).__name__}'")
        for kk in list(d):
            if kk is k:
                return kk
            r = self.eq(kk, k)
            if r is False:
                continue
            if self.t(r):
                return kk
        return MISSING

    def unhashable(self, k):
        if isinstance(k, (list, dict, set, collections.deque, bytearray)):
            return True
        if isinstance(k, Sym):
            return k.pytype in (list, dict, set, collections.deque, bytearray)
        if isinstance(k, tuple):
            return any(self.unhashable(x) for x in k)
        return type(k).__hash__ is None

    def sym_getitem(self, obj, idx):
        if isinstance(obj, SStr):
            n = z3.Length(obj.e)
            if isinstance(idx, slice):
                lo, hi = self.slice_bounds(idx, n)
                return mkstr(z3.SubString(obj.e, lo, z3.simplify(hi - lo)))
            e = intexpr(idx)
            c = z3.simplify(e)
            if z3.is_int_value(c) and c.as_long() < 0:
                e = n + e
            elif not z3.is_int_value(c):
                e = e + n if self.branch(e < 0) else e
            if self.branch(z3.Or(e < 0, e >= n)):
                raise IndexError("string index out of range")
            return mkstr(z3.SubString(obj.e, e, 1))
        if isinstance(obj, SList):
            obj = obj.seq
        if isinstance(obj, SSeq):
            if isinstance(idx, slice):
                if idx.step == -1 and idx.start is None and idx.stop is None:
                    return seq_reversed(obj)
                lo, hi = self.slice_bounds(idx, obj.nexpr())
                return seq_slice(obj, lo, hi)
            return obj.at(self.norm_index(idx, obj.nexpr()))
        if isinstance(obj, SMap):
            if obj.key(idx) is None or not obj.lookup(idx):
                raise KeyError(idx)
            return obj.val(obj.key(idx))
        if hasattr(obj, "sym_getitem"):
            return obj.sym_getitem(idx)
        raise Unsupported(f"subscript of symbolic {type(obj).__name__}")

    def map_override(self, obj, name):
        """The method a dict subclass defines itself, for a symbolic map of that class."""
        if isinstance(obj, (SMap, SODict)) and issubclass(obj.pytype, dict) and obj.pytype is not dict:
            d = self.type_lookup(obj.pytype, name)
            if isinstance(d, types.FunctionType) and self.in_scope(d):
                return d
        return None

    def si(self, obj, idx, v, raw=False):
        m = None if raw else self.map_override(obj, "__setitem__")
        if m is not None:
            return self.call(m, obj, idx, v)
        if isinstance(obj, SList):
            return obj.m_setitem(idx, v)
        if isinstance(obj, SMap):
            if obj.pytype is types.MappingProxyType:
                raise TypeError("'mappingproxy' object does not support item assignment")
            return obj.put(idx, v)
        if isinstance(obj, Sym):
            if hasattr(obj, "sym_setitem"):
                return obj.sym_setitem(idx, v)
            if obj.pytype in (tuple, str, bytes):
                raise TypeError(f"'{obj.pytype.__name__}' object does not support item assignment")
            raise Unsupported(f"item assignment on symbolic {type(obj).__name__}")
        m = self.py_method(obj, "__setitem__") if not raw else None
        if m is not None:
            return self.call(m, obj, idx, v)
        if isinstance(obj, dict):
            k = self.dict_find(obj, idx)
            self.touch(obj)
            return self._dset(obj, idx if k is MISSING else k, v)
        if isinstance(obj, list):
            self.touch(obj)
            if isinstance(idx, SInt):
                n = len(obj)
                k = self.norm_index(idx, n)
                # keep the list concrete: every cell becomes an if-then-else when it can
                new = []
                for j in range(n):
                    m2 = self.ite_merge(k == j, v, obj[j])
                    new.append(m2)
                if any(x is MISSING for x in new):
                    k = self.concretize(SInt(k))
                    obj[k] = v
                else:
                    obj[:] = new
                return
            obj[idx] = v
            return
        if has_sym(idx):
            raise Unsupported(f"item assignment on {type(obj).__name__} at a symbolic index")
        if not isinstance(obj, (tuple, str, bytes, types.MappingProxyType)):
            self.touch(obj)
        obj[idx] = v

    def di(self, obj, idx):
        m = self.map_override(obj, "__delitem__")
        if m is not None:
            return self.call(m, obj, idx)
        if isinstance(obj, SList):
            return obj.m_delitem(idx)
        if isinstance(obj, SMap):
            return obj.remove(idx)
        if isinstance(obj, Sym):
            if hasattr(obj, "sym_delitem"):
                return obj.sym_delitem(idx)
            raise Unsupported("item deletion")
        m = self.py_method(obj, "__delitem__")
        if m is not None:
            return self.call(m, obj, idx)
        if isinstance(obj, dict):
            k = self.dict_find(obj, idx)
            if k is MISSING:
                raise KeyError(idx)
            self.touch(obj)
            return self._ddel(obj, k)
        if has_sym(idx):
            idx = self.concretize(idx)
        if not isinstance(obj, (tuple, str, bytes)):
            self.touch(obj)
        del obj[idx]

    # ---------------------------------------------------------------- operators
    def bin(self, op, a, b):
        sa, sb = isinstance(a, Sym), isinstance(b, Sym)
        if not sa and not sb:
            if isinstance(a, PRIM) and isinstance(b, PRIM):
                return _OPS[op](a, b)
            d = _DUNDER[op]
            m = self.py_method(a, f"__{d}__")
            if m is not None:
                r = self.call(m, a, b)
                if r is not NotImplemented:
                    return r
            m = self.py_method(b, f"__r{d}__")
            if m is not None:
                r = self.call(m, b, a)
                if r is not NotImplemented:
                    return r
                raise TypeError(f"unsupported operand type(s) for {op}")
            if op == "%" and isinstance(a, str) and has_sym(b):
                return self.percent(a, b)
            if isinstance(a, dict) and isinstance(b, dict) and op == "|":
                r = self.new(type(a)())
                self.dict_update(r, a)
                self.dict_update(r, b)
                return r
            r = _OPS[op](a, b)
            if isinstance(r, (list, dict, set, collections.deque)):
                self.new(r)
            return r
        if isinstance(a, ESet) or isinstance(b, ESet):
            return self.set_op(op, a, b)
        if op == "%" and isinstance(a, (str, SStr)):
            return self.percent(a, b)
        if op == "+" and isinstance(a, (SSeq, SList, list, tuple)) and isinstance(b, (SSeq, SList, list, tuple)):
            pa, pb = self.pytype(a), self.pytype(b)
            if pa is not pb:
                raise TypeError("can only concatenate the same sequence type")
            r = seq_concat(self.as_sseq(a, True), self.as_sseq(b, True), pa)
            return self.new(SList(r, pa)) if pa is not tuple else r
        if op == "*" and (isinstance(a, (list, tuple)) and isinstance(b, SInt) or isinstance(b, (list, tuple)) and isinstance(a, SInt)):
            l, n = (a, b) if isinstance(a, (list, tuple)) else (b, a)
            if len(l) != 1:
                raise Unsupported("repetition of a longer sequence")
            v = l[0]
            ne = z3.simplify(z3.If(n.e < 0, 0, n.e))
            q = SSeq(ne, lambda i: v, type(l))
            return self.new(SList(q, list)) if isinstance(l, list) else q
        if op == "|" and (isinstance(a, SMap) or isinstance(b, SMap)):
            r = self.map_copy(a)
            self.map_update(r, b)
            return r
        for x, y, dd in ((a, b, f"__{_DUNDER[op]}__"), (b, a, f"__r{_DUNDER[op]}__")):
            if isinstance(x, SIntOf):
                d = self.type_lookup(x.pytype, dd)
                if isinstance(d, types.FunctionType):
                    return self.call(d, x, y)
            elif not isinstance(x, Sym):
                m = self.py_method(x, dd)
                if m is not None:
                    r = self.call(m, x, y)
                    if r is not NotImplemented:
                        return r
        if is_num(a) and is_num(b):
            return arith(op, a, b)
        if op == "+" and isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return self.str_concat([a, b])
        if op == "*" and isinstance(a, str) and isinstance(b, SInt):
            return a * self.concretize(b)
        if hasattr(a, "sym_bin"):
            return a.sym_bin(op, b, False)
        if hasattr(b, "sym_bin"):
            return b.sym_bin(op, a, True)
        pa, pb = self.pytype(a), self.pytype(b)
        if isinstance(a, SPoison) or isinstance(b, SPoison):
            raise Unsupported("use of a value the loop invariant says nothing about")
        raise TypeError(f"unsupported operand type(s) for {op}: '{pa.__name__}' and '{pb.__name__}'")

    def aug(self, op, a, b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, SList) and op == "+":
                a.m_extend(b)
                return a
            if isinstance(a, list) and op == "+":
                return self.bin(op, a, self.as_list(b)) if False else self._iadd_list(a, b)
            if isinstance(a, ESet) and not a.frozen:
                r = self.set_op(op, a, b)
                self.touch(a)
                a.items = r.items
                return a
            return self.bin(op, a, b)
        d = _DUNDER[op]
        m = self.py_method(a, f"__i{d}__")
        if m is not None:
            return self.call(m, a, b)
        if isinstance(a, (list, dict, set, collections.deque)):
            if isinstance(a, dict):
                self.dict_update(a, b)
                return a
            self.touch(a)
            if isinstance(a, list) and op == "+":
                a.extend(self.it(b))
                return a
            return _IOPS[op](a, b)
        return self.bin(op, a, b)

    def _iadd_list(self, a, b):
        self.touch(a)
        for v in self.it(b):
            a.append(v)
        return a

    def un(self, op, v):
        if op == "not":
            if isinstance(v, SBool):
                return negate(v)
            if isinstance(v, Sym):
                return mkbool(z3.Not(self.truth_expr(v)))
            return not self.t(v)
        if isinstance(v, Sym):
            if not is_num(v):
                raise TypeError("bad operand type for unary " + op)
            e = num(v)
            return wrapnum(-e if op == "-" else e if op == "+" else -e - 1)
        m = self.py_method(v, {"-": "__neg__", "+": "__pos__", "~": "__invert__"}[op])
        if m is not None:
            return self.call(m, v)
        return -v if op == "-" else +v if op == "+" else ~v

    # ---------------------------------------------------------------- comparison
    def pytype(self, v):
        return v.pytype if isinstance(v, Sym) else type(v)

    def _gen_eq(self, t):
        """dataclass-generated __eq__ of t?"""
        for k in t.__mro__:
            if "__eq__" in k.__dict__:
                f = k.__dict__["__eq__"]
                if isinstance(f, types.FunctionType) and dataclasses.is_dataclass(k) and "__dataclass_params__" in k.__dict__ and k.__dict__["__dataclass_params__"].eq \
                        and not self.in_scope_code(f.__code__):
                    return k
                return None
        return None

    def eq(self, a, b):
        if a is b and not isinstance(a, (float, SReal)):
            return True
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.sym_eq(a, b)
        if isinstance(a, PRIM) and isinstance(b, PRIM):
            return a == b
        if isinstance(a, (list, tuple, collections.deque)) and isinstance(b, (list, tuple, collections.deque)) and \
                self._plain_eq(type(a)) and self._plain_eq(type(b)):
            base = next(k for k in (list, tuple, collections.deque) if isinstance(a, k))
            if not isinstance(b, base):
                return False
            x, y = list(base.__iter__(a)), list(base.__iter__(b))
            if len(x) != len(y):
                return False
            return self.conj(self.eq(p, q) for p, q in zip(x, y))
        ta, tb = type(a), type(b)
        k = self._gen_eq(ta)
        if k is not None:
            if ta is tb:
                return self.conj(self.eq(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(k) if f.compare)
            k = None
        if isinstance(a, (dict, types.MappingProxyType)) and isinstance(b, (dict, types.MappingProxyType)) and \
                not self.py_method(a, "__eq__") and not self.py_method(b, "__eq__"):
            if len(a) != len(b):
                return False
            if isinstance(a, collections.OrderedDict) and isinstance(b, collections.OrderedDict):
                return self.conj(self.eq((p, self._dget(a, p)), (q, self._dget(b, q))) for p, q in zip(a, b))
            res = []
            for p in list(a):
                q = self.dict_find(b, p)
                if q is MISSING:
                    return False
                res.append(self.eq(self._dget(a, p), self._dget(b, q)))
            return self.conj(iter(res))
        # user-defined
        for x, y in (((b, a), (a, b)) if (tb is not ta and issubclass(tb, ta)) else ((a, b), (b, a))):
            m = self.py_method(x, "__eq__")
            if m is not None:
                r = self.call(m, x, y)
                if r is not NotImplemented:
                    return r
        if self.type_lookup(ta, "__eq__") is object.__eq__ and self.type_lookup(tb, "__eq__") is object.__eq__:
            return a is b
        if self._gen_eq(ta) or self._gen_eq(tb):
            return False if not (isinstance(a, Sym) or isinstance(b, Sym)) else self.sym_eq(a, b)
        r = a == b
        return r

    def _plain_eq(self, t):
        f = self.type_lookup(t, "__eq__")
        return f in (list.__eq__, tuple.__eq__, collections.deque.__eq__)

    def conj(self, gen):
        es = []
        for r in gen:
            if r is False:
                return False
            if r is True:
                continue
            if not isinstance(r, Sym):
                if not r:
                    return False
                continue
            es.append(self.truth_expr(r))
        if not es:
            return True
        return mkbool(z3.And(*es))

    def sym_eq(self, a, b):
        if is_num(a) and is_num(b):
            return compare("==", a, b)
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return self.str_eq(a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (SPoison,)):
                raise Unsupported("use of a value the loop invariant says nothing about")
            if isinstance(x, SBytesInt):
                return x.__eq__(y)
            if isinstance(x, ESet):
                return self.set_eq(x, y)
            if isinstance(x, (SSeq, SList)):
                if not isinstance(y, (SSeq, SList, list, tuple, collections.deque)):
                    return self._reflect(x, y)
                px, py = self.pytype(x), self.pytype(y)
                if not (issubclass(px, py) or issubclass(py, px)):
                    return False
                return self.seq_eq(self.as_sseq(x, True), self.as_sseq(y, True))
            if isinstance(x, SMap):
                if isinstance(y, (SMap, dict, types.MappingProxyType)):
                    return self.map_eq(x, y)
                return self._reflect(x, y)
            if hasattr(x, "sym_eq"):
                return x.sym_eq(y)
        for x, y in ((a, b), (b, a)):
            if not isinstance(x, Sym):
                m = self.py_method(x, "__eq__")
                if m is not None:
                    r = self.call(m, x, y)
                    if r is not NotImplemented:
                        return r
        return False

    def _reflect(self, x, y):
        m = self.py_method(y, "__eq__")
        if m is not None:
            r = self.call(m, y, x)
            if r is not NotImplemented:
                return r
        return False

    def seq_eq(self, x, y):
        nx, ny = z3.simplify(x.nexpr()), z3.simplify(y.nexpr())
        for p, q in ((nx, ny), (ny, nx)):
            if z3.is_int_value(p):
                k = p.as_long()
                if z3.is_int_value(q) and q.as_long() != k:
                    return False
                if k > 64:
                    raise Unsupported("comparison of long sequences")
                le = p == q
                parts = [mkbool(le)]
                if parts[0] is False:
                    return False
                saved = self.quant
                for j in range(k):
                    parts.append(self.eq(x.at(z3.IntVal(j)), y.at(z3.IntVal(j))))
                return self.conj(iter(parts))
        j = z3.Int(self.name("qj"))
        self.quant += 1
        try:
            r = self.eq(x.at(j), y.at(j))
        finally:
            self.quant -= 1
        r = self.truth_expr(r) if isinstance(r, Sym) else z3.BoolVal(bool(r))
        return mkbool(z3.And(nx == ny, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nx), r))))

    def cmp(self, op, a, b):
        if op == "is" or op == "is not":
            r = self.is_(a, b)
            return negate(r) if op == "is not" else r
        if op == "in" or op == "not in":
            r = self.contains(b, a)
            if op == "not in":
                return negate(r) if isinstance(r, Sym) else not r
            return r
        if op == "==":
            return self.eq(a, b)
        if op == "!=":
            if not isinstance(a, Sym):
                m = self.py_method(a, "__ne__")
                if m is not None:
                    r = self.call(m, a, b)
                    if r is not NotImplemented:
                        return r
            r = self.eq(a, b)
            if isinstance(r, Sym):
                return negate(r)
            return not r
        sa, sb = isinstance(a, Sym), isinstance(b, Sym)
        if not sa and not sb:
            if not (isinstance(a, PRIM) and isinstance(b, PRIM)):
                d, rd, f = _CMPD[op]
                m = self.py_method(a, d)
                if m is not None:
                    r = self.call(m, a, b)
                    if r is not NotImplemented:
                        return r
                m = self.py_method(b, rd)
                if m is not None:
                    r = self.call(m, b, a)
                    if r is not NotImplemented:
                        return r
                if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and (has_sym(a) or has_sym(b)):
                    return self.lex(op, a, b)
                if isinstance(a, (set, frozenset, collections.abc.KeysView)) and has_sym(a) or isinstance(b, (set, frozenset)) and has_sym(b):
                    raise Unsupported("set ordering")
            return _CMPD[op][2](a, b)
        if is_num(a) and is_num(b) or isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return compare(op, a, b)
        if isinstance(a, ESet) or isinstance(b, ESet):
            return self.set_cmp(op, a, b)
        for x, y, d in ((a, b, _CMPD[op][0]), (b, a, _CMPD[op][1])):
            if not isinstance(x, Sym):
                m = self.py_method(x, d)
                if m is not None:
                    r = self.call(m, x, y)
                    if r is not NotImplemented:
                        return r
        raise TypeError(f"'{op}' not supported between instances of '{self.pytype(a).__name__}' and '{self.pytype(b).__name__}'")

    def lex(self, op, a, b):
        if op in (">", ">="):
            return self.lex("<" if op == ">" else "<=", b, a)
        for x, y in zip(a, b):
            if self.t(self.eq(x, y)):
                continue
            return self.cmp("<", x, y)
        return len(a) < len(b) if op == "<" else len(a) <= len(b)

    def is_(self, a, b):
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SBool) and isinstance(y, (bool, SBool)):
                return mkbool(x.e == bexpr(y))
            if hasattr(x, "sym_is"):
                return x.sym_is(y)
            if isinstance(x, SMap) and isinstance(y, SMap):
                return False
        return False

    def contains(self, c, x):
        if isinstance(c, Sym):
            if isinstance(c, SStr):
                if not isinstance(x, (str, SStr)):
                    raise TypeError("'in <string>' requires string as left operand")
                return mkbool(z3.Contains(c.e, strexpr(x)))
            if isinstance(c, SMap):
                e = c.key(x)
                if e is None:
                    return False
                r = mkbool(c.has(e))
                self.solver.add(z3.Implies(c.has(e), c.nexpr() > 0))
                return r
            if isinstance(c, ESet):
                return self.disj(self.eq(x, y) for y in c.items)
            q = self.as_sseq(c) if not isinstance(c, SODict) else None
            if q is not None:
                return self.seq_any(q, lambda v: self.eq(v, x))
            if hasattr(c, "sym_contains"):
                return c.sym_contains(x)
            raise Unsupported("membership")
        if c is os.environ:
            return self.container_method(c, "__contains__", (x,), {})
        m = self.py_method(c, "__contains__")
        if m is not None:
            return self.call(m, c, x)
        if isinstance(c, (dict, types.MappingProxyType)) or isinstance(c, collections.abc.KeysView):
            if isinstance(c, collections.abc.KeysView) and type(c).__module__ != "builtins":
                return self.t(self.contains(c._mapping, x))
            if sym_key(x) or dict_has_symkeys(c):
                if self.unhashable(x):
                    raise TypeError("unhashable type")
                return self.disj(self.eq(k, x) for k in list(c))
            return x in c
        if isinstance(c, (list, tuple, set, frozenset, collections.deque)):
            if has_sym(x) or has_sym(c) or self.py_method(x, "__eq__") or any(self.py_method(y, "__eq__") for y in c):
                if isinstance(c, (set, frozenset)) and self.unhashable(x):
                    raise TypeError("unhashable type")
                return self.disj(True if y is x else self.eq(y, x) for y in list(c))
            return x in c
        if isinstance(c, str) and isinstance(x, SStr):
            return mkbool(z3.Contains(strexpr(c), x.e))
        it = self.type_lookup(type(c), "__contains__")
        if it is None or has_sym(x):
            for y in self.it(c):
                if self.t(self.eq(y, x)):
                    return True
            return False
        return x in c

    def disj(self, gen):
        es = []
        for r in gen:
            if r is True:
                return True
            if r is False:
                continue
            if not isinstance(r, Sym):
                if r:
                    return True
                continue
            es.append(self.truth_expr(r))
        if not es:
            return False
        return mkbool(z3.Or(*es))

    def seq_any(self, q, pred):
        """exists i < n. pred(at(i)) as a formula (quantified when the length is symbolic)."""
        n = z3.simplify(q.nexpr())
        if z3.is_int_value(n):
            return self.disj(pred(q.at(z3.IntVal(j))) for j in range(n.as_long()))
        j = z3.Int(self.name("qj"))
        self.quant += 1
        try:
            r = pred(q.at(j))
        finally:
            self.quant -= 1
        r = self.truth_expr(r) if isinstance(r, Sym) else z3.BoolVal(bool(r))
        return mkbool(z3.Exists([j], z3.And(0 <= j, j < n, r)))

    # ---------------------------------------------------------------- strings
    def str_eq(self, a, b):
        return compare("==", a, b)

    def str_concat(self, parts):
        ps = []
        for p in parts:
            if isinstance(p, str) and ps and isinstance(ps[-1], str):
                ps[-1] = ps[-1] + p
            elif p == "" and isinstance(p, str):
                continue
            else:
                ps.append(p)
        if not ps:
            return ""
        if len(ps) == 1:
            return ps[0]
        return mkstr(z3.Concat(*[strexpr(p) for p in ps]))

    def fstr(self, *parts):
        if all(type(p) is str for p in parts):
            return "".join(parts)
        return self.str_concat(list(parts))

    def fmt(self, value, conv, spec):
        if isinstance(spec, Sym):
            raise Unsupported("symbolic format spec")
        if isinstance(value, Sym):
            if conv == 114:
                return self.opaque_str("repr")
            if conv == 115 or not spec:
                r = self.to_str(value)
                if not spec:
                    return r
                value = r
            return self.format_(value, spec)
        if conv == 114:
            r = self.to_repr(value)
        elif conv == 115:
            r = self.to_str(value)
        else:
            return self.format_(value, spec)
        return self.format_(r, spec)

    def to_str(self, v):
        if isinstance(v, str) and type(v) is str:
            return v
        if isinstance(v, SStr):
            return v
        if isinstance(v, SBool):
            return mkstr(z3.If(v.e, z3.StringVal("True"), z3.StringVal("False")))
        if isinstance(v, SInt):
            if isinstance(v, SIntOf):
                d = self.type_lookup(v.pytype, "__str__")
                if isinstance(d, types.FunctionType):
                    return self.call(d, v)
            return mkstr(z3.If(v.e >= 0, z3.IntToStr(v.e), z3.Concat(z3.StringVal("-"), z3.IntToStr(-v.e))))
        if isinstance(v, SReal):
            return self.real_text(v)
        if isinstance(v, Sym):
            f = self.type_lookup(type(v), "sym_str")
            return f(v) if f else self.opaque_str("str")
        m = self.py_method(v, "__str__") or (self.py_method(v, "__repr__") if self.type_lookup(type(v), "__str__") is object.__str__ else None)
        if m is not None:
            return self.call(m, v)
        if has_sym(v) or isinstance(v, BaseException) and has_sym(v.args):
            if isinstance(v, BaseException) and len(v.args) == 1:
                return self.to_str(v.args[0])
            return self.opaque_str("str")
        try:
            return str(v)
        except Unsupported:
            return self.opaque_str("str")

    def real_text(self, v):
        """str() of a finite float: an injective function of the number."""
        x = z3.Function("repr_real", z3.RealSort(), z3.StringSort())(v.e)
        if not self.quant:
            self.imprecise = True
            self.solver.add(z3.Function("unrepr_real", z3.StringSort(), z3.RealSort())(x) == v.e, FLOAT_TEXT(x))
        return SStr(x)

    def repr_expr(self, v):
        """The repr of plain data, as an injective function of its parts; None for anything else."""
        S = z3.StringSort()
        if type(v) is str or isinstance(v, SStr):
            r, inv = z3.Function("repr_str", S, S), z3.Function("unrepr_str", S, S)
            x = z3.StringVal(repr(v)) if type(v) is str else r(v.e)
            self.solver.add(inv(x) == strexpr(v))
            return x
        if isinstance(v, SReal):
            return self.real_text(v).e
        if isinstance(v, SInt) and type(v) is SInt:
            return self.to_str(v).e
        if v is None or type(v) in (bool, int):
            return z3.StringVal(repr(v))
        if type(v) in (tuple, list) and len(v) > 0:
            parts = [self.repr_expr(x) for x in v]
            if any(x is None for x in parts):
                return None
            tag = f"repr_{type(v).__name__}{len(v)}"
            x = z3.Function(tag, *[S] * (len(v) + 1))(*parts)
            for i, y in enumerate(parts):
                self.solver.add(z3.Function(f"un{tag}_{i}", S, S)(x) == y)
            return x
        return None

    def to_repr(self, v):
        if has_sym(v):
            x = self.repr_expr(v)
            if x is not None:
                self.imprecise = True
                return SStr(x)
            return self.opaque_str("repr")
        m = self.py_method(v, "__repr__")
        if m is not None:
            return self.call(m, v)
        try:
            return repr(v)
        except Unsupported:
            return self.opaque_str("repr")

    # ---------------------------------------------------------------- displays
    def new_display(self, v):
        return self.new(v)

    def mkset(self, *elts):
        return self.make_set(elts, False)

    def make_set(self, elts, frozen):
        elts = list(elts)
        for e in elts:
            if self.unhashable(e):
                raise TypeError(f"unhashable type: '{self.pytype(e).__name__}'")
        if not any(has_sym(e) for e in elts):
            return frozenset(elts) if frozen else self.new(set(elts))
        out = []
        for e in elts:
            if not any(self.t(self.eq(e, o)) for o in out):
                out.append(e)
        return self.new(ESet(out, frozen))

    def set_items(self, v):
        if isinstance(v, ESet):
            return list(v.items)
        return list(self.it(v))

    def set_op(self, op, a, b):
        fr = a.frozen if isinstance(a, ESet) else isinstance(a, frozenset)
        x, y = self.set_items(a), self.set_items(b)
        inn = lambda v, l: self.t(self.disj(self.eq(v, w) for w in l))
        if op == "|":
            return self.make_set(x + y, fr)
        if op == "&":
            return self.make_set([v for v in x if inn(v, y)], fr)
        if op == "-":
            return self.make_set([v for v in x if not inn(v, y)], fr)
        if op == "^":
            return self.make_set([v for v in x if not inn(v, y)] + [v for v in y if not inn(v, x)], fr)
        raise TypeError("unsupported set operation")

    def set_eq(self, a, b):
        if not (isinstance(b, (ESet, set, frozenset)) or isinstance(b, collections.abc.Set)):
            return False
        x, y = self.set_items(a), self.set_items(b)
        if len(x) != len(y):
            return False
        return self.conj(self.disj(self.eq(v, w) for w in y) for v in x)

    def set_cmp(self, op, a, b):
        if op in (">", ">="):
            a, b, op = b, a, {">": "<", ">=": "<="}[op]
        x, y = self.set_items(a), self.set_items(b)
        r = self.conj(self.disj(self.eq(v, w) for w in y) for v in x)
        if op == "<" and not (len(x) < len(y)):
            return False
        return r

    def mkdict(self, *items):
        d = self.new({})
        for it in items:
            if len(it) == 1:
                src = it[0]
                if isinstance(src, SMap):
                    if not d:
                        d = self.new(src.fork(dict))
                        continue
                    raise Unsupported("** of a symbolic map after other items")
                self.dict_update(d, src)
            else:
                self.si(d, it[0], it[1])
        return d

    def dict_update(self, d, src, **kw):
        """dict.update and dict construction: never calls an overridden __setitem__ (as in CPython)."""
        if isinstance(d, SMap):
            self.map_update(d, src)
        else:
            for k, v in self.items_of(src):
                self.si(d, k, v, True)
        for k, v in kw.items():
            self.si(d, k, v, True)

    def map_update(self, d, src):
        if isinstance(src, SMap):
            return d.update(src)
        m = None if isinstance(src, dict) else self.keys_of_map(src)
        if m is not None:
            # dict.update reads the value of each key: those of the map whose keys are iterated over, for an arbitrary key
            def val(x):
                return self.gi(src, mkstr(x))
            k = z3.String(self.name("anykey"))
            self.solver.push()
            try:
                self.solver.add(m.has(k))
                same = self.eq(val(k), m.val(k))
                if not (same is True or isinstance(same, Sym) and self._check(z3.Not(self.truth_expr(same))) == z3.unsat):
                    raise Unsupported("update from a mapping whose items are not those of a symbolic map")
            finally:
                self.solver.pop()
            d.update(m)
        else:
            for k, v in self.items_of(src):
                d.put(k, v)

    def keys_of_map(self, src):
        """The symbolic map whose keys a mapping object iterates over, if that is what it does."""
        if isinstance(src, Sym) or not self.hasattr_(src, "keys"):
            return None
        q = self.cm(src, "keys")
        if type(q) is collections.abc.KeysView:  # yields what its mapping's iterator does
            q = q._mapping
        q = self.resolve_iter(q)
        q = self.as_sseq(q) if isinstance(q, Sym) else None
        return getattr(q, "keys_of", None)

    def map_copy(self, m, pytype=dict):
        if isinstance(m, SMap):
            return self.new(m.fork(pytype))
        r = self.new(SMap(lambda x: z3.BoolVal(False), lambda x: None, 0))
        for k, v in self.items_of(m):
            r.put(k, v)
        return r

    def items_of(self, src):
        """Pairs of a mapping or of an iterable of pairs."""
        if isinstance(src, (dict, types.MappingProxyType)) and not self.py_method(src, "keys") and not self.py_method(src, "__iter__"):
            return [(k, self._dget(src, k)) for k in list(src)]
        if isinstance(src, Sym):
            if isinstance(src, SMap):
                raise Unsupported("iteration over a symbolic map")
            if isinstance(src, SODict):
                src = src.items_seq()
            return [tuple(self.unpack(p, 2, -1)) for p in self.it(src)]
        if self.hasattr_(src, "keys"):
            return [(k, self.gi(src, k)) for k in self.it(self.cm(src, "keys"))]
        return [tuple(self.it(self.unpack(p, 2, -1))) for p in self.it(src)]

    def hasattr_(self, o, n):
        try:
            self.ga(o, n)
            return True
        except AttributeError:
            return False

    def map_eq(self, a, b):
        if isinstance(b, SMap):
            k = z3.String(self.name("qk"))
            self.quant += 1
            try:
                va = self.eq(a.val(k), b.val(k))
            finally:
                self.quant -= 1
            va = self.truth_expr(va) if isinstance(va, Sym) else z3.BoolVal(bool(va))
            return mkbool(z3.ForAll([k], z3.And(a.has(k) == b.has(k), z3.Implies(a.has(k), va))))
        parts = [mkbool(a.nexpr() == len(b))]
        for k, v in self.items_of(b):
            e = a.key(k)
            if e is None:
                return False
            parts.append(mkbool(a.has(e)))
            r = self.eq(a.val(e), v)
            parts.append(r)
        return self.conj(iter(parts))

    # ---------------------------------------------------------------- sequences and loops
    def as_sseq(self, v, force=False):
        if isinstance(v, SSeq):
            return v
        if isinstance(v, SList):
            return v.seq
        if isinstance(v, (SMap, SODict)):
            return v.keys_seq()
        if isinstance(v, SIter):
            q = v.seq
            return q if isinstance(v.pos, int) and v.pos == 0 else seq_slice(q, v.pos, q.nexpr())
        if force and isinstance(v, (list, tuple, collections.deque)):
            return seq_of(v, type(v))
        return None

    def concrete_len(self, q):
        n = z3.simplify(q.nexpr())
        return n.as_long() if z3.is_int_value(n) else None

    def over_unroll(self, label):
        if self.unroll is not None:
            self.bounded = True
            raise PathEnd()
        raise Unsupported(f"{label}: no invariant and the number of iterations is not bounded")

    def resolve_iter(self, x):
        """The symbolic iterator behind an object with its own __iter__, if there is one; otherwise an iterable with the same elements."""
        if isinstance(x, Sym):
            return x
        m = self.py_method(x, "__iter__")
        if m is None:
            if isinstance(x, BoundModel):
                return x
            return x
        return self.resolve_iter(self.call(m, x))

    def it(self, x):
        """Something native code can iterate over."""
        if isinstance(x, Sym):
            q = self.as_sseq(x)
            if q is None:
                if isinstance(x, ESet):
                    return list(x.items)
                if isinstance(x, SStr):
                    return self.iter_str(x)
                if hasattr(x, "sym_iter"):
                    return x.sym_iter()
                if not hasattr(x.pytype, "__iter__"):
                    raise TypeError(f"'{x.pytype.__name__}' object is not iterable")
                raise Unsupported(f"iteration over symbolic {type(x).__name__}")
            return self.iter_seq(q, x)
        if isinstance(x, (list, tuple, dict, set, frozenset, collections.deque, str, bytes, range, types.GeneratorType)) and not self.py_method(x, "__iter__"):
            return x
        m = self.py_method(x, "__iter__")
        if m is not None:
            return self.it(self.call(m, x))
        n = self.py_method(x, "__next__")
        if n is not None:
            def g():
                while True:
                    try:
                        v = self.call(n, x)
                    except StopIteration:
                        return
                    yield v
            return g()
        m = self.py_method(x, "__getitem__")
        if m is not None and self.type_lookup(type(x), "__iter__") is None:
            def g2():
                i = 0
                while True:
                    try:
                        v = self.call(m, x, i)
                    except IndexError:
                        return
                    i += 1
                    yield v
            return g2()
        return x

    def iter_str(self, x):
        n = z3.Length(x.e)
        def g():
            k = 0
            while True:
                if not self.branch(n > k):
                    return
                if self.unroll is None and k >= 64 or self.unroll is not None and k >= self.unroll:
                    self.over_unroll("iteration over a symbolic string")
                yield mkstr(z3.SubString(x.e, k, 1))
                k += 1
        return g()

    def iter_seq(self, q, src=None):
        c = self.concrete_len(q)
        def g():
            k = 0
            while True:
                if c is not None:
                    if k >= c:
                        return
                else:
                    if not self.branch(q.nexpr() > k):
                        return
                    if self.unroll is None or k >= self.unroll:
                        self.over_unroll(f"iteration over {q.name or 'a symbolic sequence'}")
                if isinstance(src, SIter):
                    src.pos = k + 1 if isinstance(src.pos, int) else src.pos + 1
                yield q.at(z3.IntVal(k))
                k += 1
        if isinstance(src, SIter) and not (isinstance(src.pos, int) and src.pos == 0):
            src.seq = q
            src.pos = 0
        return g()

    def listdisp(self, *args):
        """A list display with starred parts, some of which may have any length."""
        out = self.new([])
        for star, x in zip(args[::2], args[1::2]):
            if not star:
                out = self.bin("+", out, self.new([x]))
                continue
            y = self.resolve_iter(x)
            q = self.as_sseq(y) if isinstance(y, Sym) else None
            if q is not None and self.concrete_len(q) is None:
                out = self.bin("+", out, self.call(list, x))
            else:
                out = self.bin("+", out, self.new([*self.it(x)]))
        return out

    def find_inv(self, key, ordinal, name, is_while=False):
        for inv in reversed(self.loop_invs):
            if inv.is_while != is_while:
                continue  # written for the other kind of loop (counted by index or not): says nothing about this one
            if inv.over is not None:
                if name is not None and inv.over == name and (inv.key is None or key.endswith(inv.key)):
                    return inv
            elif inv.key is not None and key.endswith(inv.key) and inv.ordinal in (None, ordinal):
                return inv
        return None

    def loop(self, key, ordinal, it, names):
        label = f"loop {key.split(':')[-1]}"
        it = self.resolve_iter(it)
        if isinstance(it, Sym):
            q = self.as_sseq(it)
            if q is not None and self.concrete_len(q) is None:
                inv = self.find_inv(key, ordinal, q.name)
                if inv is not None:
                    if isinstance(it, SIter):
                        it.pos = q.nexpr()
                    return SymLoop(self, f"{label} over {q.name}" if q.name else label, q, names, inv)
        return NativeLoop(self.it(it), None, label)

    def wloop(self, key, ordinal, names):
        label = f"loop {key.split(':')[-1]}"
        inv = self.find_inv(key, ordinal, None, True)
        if inv is not None:
            return SymLoop(self, label, None, names, inv, is_while=True)
        return WhileLoop(self, label, self.unroll if self.unroll is not None else 400)

    def havoc_value(self, v, nm):
        if isinstance(v, (bool, SBool)):
            return SBool(z3.Bool(self.name(nm)))
        if isinstance(v, (int, SInt)) and not isinstance(v, enum.Enum):
            return SInt(z3.Int(self.name(nm)))
        if isinstance(v, (float, SReal)):
            return SReal(z3.Real(self.name(nm)))
        if isinstance(v, (str, SStr)):
            return SStr(z3.String(self.name(nm)))
        return SPoison()

    def check_clauses(self, clauses, name):
        for idx, c in enumerate(clauses):
            if isinstance(c, tuple):
                nm, c = c
                nm = f"{name}:{nm}"
            else:
                nm = f"{name}:{idx}"
            self.check_any(c, nm)

    def check_any(self, c, nm, detail=""):
        from .engine import ForallFact
        if isinstance(c, ForallFact):
            lo, hi = intexpr(c.lo), intexpr(c.hi)
            if self.choose(2) == 0:
                j = z3.Int(self.name("sk"))
                self.solver.add(lo <= j, j < hi)
                if not self._sat():
                    raise PathEnd()
                r = c.body(SInt(j))
                self.check_any(r, nm, detail)
                raise PathEnd()
            return
        if isinstance(c, (list, tuple)):
            for x in c:
                self.check_any(x, nm, detail)
            return
        self.check(c, nm, detail)

    def assume_clauses(self, clauses):
        for c in clauses:
            if isinstance(c, tuple):
                c = c[1]
            self.assume_any(c)

    def assume_any(self, c):
        from .engine import ForallFact
        if isinstance(c, ForallFact):
            lo, hi = intexpr(c.lo), intexpr(c.hi)
            j = z3.Int(self.name("qj"))
            self.quant += 1
            try:
                r = c.body(SInt(j))
            finally:
                self.quant -= 1
            if isinstance(r, (list, tuple)):
                r = self.conj(iter(r))
            r = self.truth_expr(r) if isinstance(r, Sym) else z3.BoolVal(bool(r))
            self.solver.add(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), r)))
            return
        if isinstance(c, (list, tuple)):
            for x in c:
                self.assume_any(x)
            return
        self.assume(c)

    def unpack(self, v, n, star):
        if isinstance(v, Sym):
            q = self.as_sseq(v)
            if q is None:
                if not hasattr(v.pytype, "__iter__"):
                    raise TypeError(f"cannot unpack non-iterable {v.pytype.__name__} object")
                vals = []
                for x in self.it(v):
                    vals.append(x)
                return vals
            ne = q.nexpr()
            if star < 0:
                if not self.branch(ne == n):
                    raise ValueError(f"not enough or too many values to unpack (expected {n})")
                return [q.at(z3.IntVal(j)) for j in range(n)]
            return list(self.iter_seq(q))
        return self.it(v)

    def comp(self, kind, src, elt, cond):
        src = self.resolve_iter(src)
        q = self.as_sseq(src) if isinstance(src, Sym) else None
        if q is not None and self.concrete_len(q) is None and self.unroll is None:
            if kind in ("list", "gen") and cond is None:
                return self.lazy_map(kind, q, elt)
            if kind in ("list", "gen"):
                return self.lazy_filter(kind, q, elt, cond)
            if kind == "dict" and getattr(q, "of_map", None) is not None:
                return self.map_comp(q, elt, cond)
            raise Unsupported(f"{kind} comprehension over a symbolic sequence")
        if kind == "gen":
            def g():
                for x in self.it(src):
                    if cond is not None and not self.t(cond(x)):
                        continue
                    yield elt(x)
            it = iter(self.it(src))
            return self._gen(it, elt, cond)
        out = []
        for x in self.it(src):
            if cond is not None and not self.t(cond(x)):
                continue
            out.append(elt(x))
        if kind == "list":
            return self.new(out)
        if kind == "set":
            return self.make_set(out, False)
        d = self.new({})
        for k, v in out:
            self.si(d, k, v)
        return d

    def _gen(self, it, elt, cond):
        for x in it:
            if cond is not None and not self.t(cond(x)):
                continue
            yield elt(x)

    def _probe(self, q, f):
        """One arbitrary element evaluated for its effects: exceptions propagate, mutation is refused."""
        if self.choose(2) == 0:
            i = z3.Int(self.name("pr"))
            self.solver.add(0 <= i, i < q.nexpr())
            if not self._sat():
                raise PathEnd()
            self.epoch += 1
            fr = Frame(self.epoch, set(), "comprehension")
            self.frames.append(fr)
            f(q.at(i))
            raise PathEnd()

    def lazy_map(self, kind, q, elt):
        self._probe(q, elt)
        r = SSeq(q.n, lambda i: elt(q.at(iexpr(i))), list, q.name and q.name + ".map")
        if kind == "gen":
            return SIter(r)
        return self.new(SList(r, list))

    def lazy_filter(self, kind, q, elt, cond):
        def both(x):
            if self.t(cond(x)):
                elt(x)
        self._probe(q, both)
        m = z3.Int(self.name("flen"))
        src = z3.Function(self.name("fsrc"), z3.IntSort(), z3.IntSort())
        inv = z3.Function(self.name("finv"), z3.IntSort(), z3.IntSort())
        n = q.nexpr()
        self.solver.add(m >= 0, m <= n)
        j, k = z3.Int(self.name("qj")), z3.Int(self.name("qk"))

        def ce(i):
            self.quant += 1
            try:
                r = cond(q.at(i))
            finally:
                self.quant -= 1
            return self.truth_expr(r) if isinstance(r, Sym) else z3.BoolVal(bool(r))

        self.solver.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(0 <= src(j), src(j) < n, ce(src(j)), inv(src(j)) == j)), patterns=[src(j)]))
        self.solver.add(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < m), src(j) < src(k)), patterns=[z3.MultiPattern(src(j), src(k))]))
        c = ce(k)
        self.solver.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, c), z3.And(0 <= inv(k), inv(k) < m, src(inv(k)) == k)), patterns=[inv(k)]))
        r = SSeq(m, lambda i: elt(q.at(src(iexpr(i)))), list, q.name and q.name + ".filter")
        r.extra = {"src": src, "inv": inv, "of": q}
        if kind == "gen":
            return SIter(r)
        return self.new(SList(r, list))

    def map_comp(self, q, elt, cond):
        """{k: f(k, v) for k, v in m.items() if p(k, v)}: the entries of m with a key that passes, in no particular order."""
        m = q.of_map.fork(dict)

        def both(x):
            if cond is None or self.t(cond(x)):
                elt(x)
        self._probe(q, both)
        if cond is None:
            has, n = m.has, m.nexpr()
        else:
            def has(e):
                self.quant += 1
                try:
                    r = cond((mkstr(e), m.val(e)))
                finally:
                    self.quant -= 1
                return z3.And(m.has(e), self.truth_expr(r) if isinstance(r, Sym) else z3.BoolVal(bool(r)))
            n = z3.Int(self.name("kept"))
            self.solver.add(0 <= n, n <= m.nexpr())
            x = z3.String(self.name("q"))
            self.solver.add(z3.Implies(n == 0, z3.ForAll([x], z3.Not(has(x)))))

        def val(e):
            k, v = self.unpack(elt((mkstr(e), m.val(e))), 2, -1)
            if not (isinstance(k, SStr) and z3.eq(z3.simplify(strexpr(k)), z3.simplify(e))):
                raise Unsupported("dict comprehension over a symbolic map that changes the keys")
            return v
        val(z3.String(self.name("anykey")))
        return self.new(SMap(has, val, n))

    # ---------------------------------------------------------------- with
    def cmgr(self, cm):
        t = type(cm)
        for n in ("__enter__", "__exit__"):
            m = self.type_lookup(t, n)
            if isinstance(m, types.FunctionType) and (is_instrumented(m) or self.in_scope(m)):
                return _CM(self, cm)
        return cm

    # ---------------------------------------------------------------- calls
    def deco(self, d):
        """Decorators are applied through the engine."""
        if isinstance(d, types.BuiltinFunctionType) or isinstance(d, type):
            return d
        return lambda f: self.call(d, f)

    def cm(self, obj, name, /, *a, **k):
        if isinstance(obj, Sym):
            return self.sym_method(obj, name, a, k)
        mm = self.container_method(obj, name, a, k)
        if mm is not MISSING:
            return mm
        return self.call(self.ga(obj, name), *a, **k)

    def call(self, f, /, *a, **k):
        if self.aborting:
            raise PathEnd()
        t = type(f)
        if t is types.MethodType:
            return self.call(f.__func__, f.__self__, *a, **k)
        model = self.model_for(f)
        if model is not None:
            return model(self, *a, **k)
        if t is types.FunctionType:
            if is_instrumented(f):
                return f(*a, **k)
            if f.__module__ and f.__module__.startswith("pyvc"):
                return f(*a, **k)
            if self.in_scope(f):
                try:
                    g = instrument(f)
                except NoSource as e:
                    raise Unsupported(str(e))
                self.note_func(f)
                return g(*a, **k)
            w = getattr(f, "__wrapped__", None)
            if w is not None:
                if "deprecat" in f.__code__.co_filename or "typing_extensions" in f.__code__.co_filename or f.__code__.co_filename.endswith("functools.py"):
                    return self.call(w, *a, **k)  # the wrapper only warns or caches
                raise Unsupported(f"wrapper of {f.__qualname__}")
            return self.native(f, a, k)
        if isinstance(f, type):
            return self.instantiate(f, a, k)
        if isinstance(f, BoundModel):
            return f(*a, **k)
        if isinstance(f, functools.partial):
            return self.call(f.func, *f.args, *a, **{**f.keywords, **k})
        if t is types.BuiltinMethodType or t is types.BuiltinFunctionType:
            s = f.__self__
            if s is not None and not isinstance(s, types.ModuleType):
                if isinstance(s, Sym):
                    return self.sym_method(s, f.__name__, a, k)
                if f.__name__ == "from_buffer" and a and hasattr(a[0], "reread"):
                    return a[0].reread(s)
                mm = self.container_method(s, f.__name__, a, k)
                if mm is not MISSING:
                    return mm
        w = getattr(f, "__wrapped__", None)
        if w is not None and not isinstance(f, types.FunctionType):
            s = getattr(f, "__self__", None) or getattr(f, "_self_instance", None)
            if t.__module__.split(".")[0] in ("wrapt", "_wrapt", "builtins") or t.__name__ in ("BoundFunctionWrapper", "FunctionWrapper"):
                return self.call(w, *a, **k)
            if t.__name__ == "_lru_cache_wrapper":
                return self.call(w, *a, **k)
        c = self.py_method(f, "__call__")
        if c is not None:
            return self.call(c, f, *a, **k)
        return self.native(f, a, k)

    def note_func(self, f):
        if f.__code__.co_filename.startswith("/repo/"):
            self.funcs.add(key_of(f))

    def native(self, f, a, k):
        if not self.native_ok(f, a, k):
            raise Unsupported(f"native call of {getattr(f, '__qualname__', f)!s} with symbolic arguments")
        a = tuple(self.twin(x) for x in a)
        k = {n: self.twin(v) for n, v in k.items()}
        return f(*a, **k)

    def twin(self, x):
        if isinstance(x, types.FunctionType) and not is_instrumented(x) and self.in_scope(x) and not x.__code__.co_filename.startswith("<"):
            try:
                return instrument(x)
            except NoSource:
                return x
        return x

    def instantiate(self, cls, a, k):
        if issubclass(cls, type):
            return cls(*a, **k)
        if issubclass(cls, enum.Enum):
            if a and isinstance(a[0], Sym):
                for mem in cls:
                    r = self.eq(a[0], mem.value)
                    if r is not False and self.t(r):
                        return mem
                raise ValueError("not a valid " + cls.__name__)
            return cls(*a, **k)
        if PB.is_message_class(cls):
            if a:
                raise TypeError("No positional arguments allowed")
            return PB.PBMsg(cls, k)
        new = self.type_lookup(cls, "__new__")
        if isinstance(new, staticmethod):
            new = new.__func__
        init = self.type_lookup(cls, "__init__")
        if type(init).__module__.startswith("wrapt") and isinstance(getattr(init, "__wrapped__", None), types.FunctionType):
            init = init.__wrapped__  # @deprecated: the wrapper only warns
        pyscope = any(self.class_in_scope(c) for c in cls.__mro__)
        if not pyscope:
            if dataclasses.is_dataclass(cls) or issubclass(cls, BaseException):
                return self.new(cls(*a, **k))
            if not (self.native_ok(cls, a, k)):
                raise Unsupported(f"instantiation of {cls.__name__} with symbolic arguments")
            return self.new(cls(*[self.twin(x) for x in a], **{n: self.twin(v) for n, v in k.items()}))
        if isinstance(new, types.FunctionType) and self.in_scope(new):
            obj = self.call(new, cls, *a, **k)
        elif new is object.__new__:
            obj = object.__new__(cls)
        elif issubclass(cls, int) and a and isinstance(a[0], Sym):
            if isinstance(a[0], (SInt, SBool)):
                r = SIntOf(num(a[0]))
                r.pytype = cls
                return r
            raise Unsupported("int subclass of a symbolic non-int")
        elif issubclass(cls, BaseException):
            obj = cls.__new__(cls, *a, **k)
        elif issubclass(cls, tuple) or isinstance(new, types.FunctionType):
            obj = new(cls, *a, **k)  # namedtuple-style: moves references only
        elif issubclass(cls, dict) and init is dict.__init__ and len(a) == 1 and not k and isinstance(a[0], (SMap, SODict)):
            return self.new(a[0].fork(cls))
        elif issubclass(cls, (dict, list, set)):
            obj = new(cls)
        else:
            obj = new(cls, *a, **k)
        if not isinstance(obj, cls):
            return obj
        if not isinstance(obj, Sym):
            self.new(obj)
        if isinstance(init, types.FunctionType):
            if self.in_scope(init):
                self.call(init, obj, *a, **k)
            elif dataclasses.is_dataclass(cls):
                self.dataclass_init(cls, obj, init, a, k)
            else:
                init(obj, *a, **k)
        elif init is object.__init__:
            if new is object.__new__ and (a or k):
                raise TypeError(f"{cls.__name__}() takes no arguments")
        elif issubclass(cls, tuple) or issubclass(cls, int) or issubclass(cls, str):
            pass
        elif issubclass(cls, dict):
            if a:
                self.dict_update(obj, a[0])
            for kk, v in k.items():
                self.si(obj, kk, v, True)
        else:
            init(obj, *a, **k)
        return obj

    def class_in_scope(self, c):
        f = getattr(sys.modules.get(c.__module__), "__file__", None) or ""
        return (f.startswith("/repo/") and "/gen/" not in f and "_pb2" not in f) or f.startswith(self.contracts_dir)

    def dataclass_init(self, cls, obj, init, a, k):
        post = self.type_lookup(cls, "__post_init__")
        import inspect
        if not (isinstance(post, types.FunctionType)):
            init(obj, *a, **k)
            return
        ba = inspect.signature(init).bind(obj, *a, **k)
        args = dict(ba.arguments)
        initvars = []
        for name, fld in cls.__dataclass_fields__.items():
            kind = fld._field_type.name
            if kind == "_FIELD_CLASSVAR":
                continue
            if name in args:
                v = args[name]
            elif fld.default is not dataclasses.MISSING:
                v = fld.default
            elif fld.default_factory is not dataclasses.MISSING:
                v = self.call(fld.default_factory)
            else:
                continue
            if kind == "_FIELD_INITVAR":
                initvars.append(v)
            else:
                object.__setattr__(obj, name, v)
        self.call(post, obj, *initvars)


def install(Engine):
    Hooks.new_ = None
    for n, v in list(vars(Hooks).items()):
        if n.startswith("__") or n == "new_":
            continue
        setattr(Engine, n, v)
    from . import models
    models.install(Engine)
