"""Contracts of the builtins and library functions verified code calls (the trusted base)."""
from __future__ import annotations

import atexit
import bisect
import builtins
import collections
import collections.abc
import contextlib
import contextvars
import copy
import ctypes
import fnmatch
import dataclasses
import enum
import functools
import itertools
import json
import logging
import math
import operator
import os
import queue
import random
import re
import sys
import threading
import time
import traceback
import types
import typing
import urllib.parse
import warnings
import weakref

import z3

from . import pb as PB
from . import regex as RX
from . import sym as S
from .containers import ESet, SList, SMap, SODict, iexpr, seq_concat, seq_of, seq_reversed, seq_slice
from .hooks import BoundModel, has_sym, sym_key
from .sym import (MISSING, Control, PathEnd, SBool, SBytesInt, SInt, SIntOf, SIter, SPoison, SReal, SSeq, SStr, Sym, Unsupported, arith,
                  bexpr, compare, intexpr, is_num, mkbool, mkstr, negate, num, strexpr, sval, wrapnum)

MODELS: dict = {}
SAFE_NATIVE: set = set()
_keep = []


def model(*fs):
    def deco(m):
        for f in fs:
            MODELS[id(f)] = m
            _keep.append(f)
        return m
    return deco


def safe(*fs):
    for f in fs:
        SAFE_NATIVE.add(id(f))
        _keep.append(f)


# ------------------------------------------------------------------------------------ types
@model(isinstance)
def m_isinstance(E, v, c):
    if isinstance(c, tuple):
        return any(m_isinstance(E, v, x) for x in c)
    if not isinstance(v, Sym):
        if isinstance(v, BoundModel):
            return c in (collections.abc.Callable, object)
        if type(v).__name__ == "PBMsg":
            return v.is_a(c)
        return isinstance(v, c)
    pt = v.pytype
    if c is object:
        return True
    if isinstance(c, types.UnionType):
        return any(m_isinstance(E, v, x) for x in c.__args__)
    o = typing.get_origin(c)
    if o is not None:
        c = o
    return issubclass(pt, c)


@model(type)
def m_type(E, *a):
    if len(a) == 1:
        return a[0].pytype if isinstance(a[0], Sym) else type(a[0])
    return type(*a)


@model(callable)
def m_callable(E, v):
    return False if isinstance(v, Sym) else callable(v)


@model(hash)
def m_hash(E, v):
    if E.unhashable(v):
        raise TypeError("unhashable type")
    m = E.py_method(v, "__hash__") if not isinstance(v, Sym) else None
    if m is not None:
        return E.call(m, v)
    if has_sym(v):
        return SInt(E.hash_fn(v))
    k = E._gen_eq(type(v))
    if k is not None and any(has_sym(getattr(v, f.name)) for f in dataclasses.fields(v)):
        return SInt(E.hash_fn(tuple(getattr(v, f.name) for f in dataclasses.fields(v))))
    return hash(v)


@model(id)
def m_id(E, v):
    return id(v)


@model(len)
def m_len(E, v):
    if isinstance(v, SStr):
        return wrapnum(z3.Length(v.e))
    if isinstance(v, (SSeq, SMap)):
        return wrapnum(v.nexpr())
    if isinstance(v, SList):
        return v.seq.length()
    if isinstance(v, SBytesInt):
        return v.length
    if isinstance(v, ESet):
        return len(v.items)
    if isinstance(v, Sym):
        if hasattr(v, "sym_len"):
            return v.sym_len()
        raise TypeError(f"object of type '{v.pytype.__name__}' has no len()")
    m = E.py_method(v, "__len__")
    if m is not None:
        return E.call(m, v)
    if isinstance(v, (collections.abc.KeysView, collections.abc.ValuesView, collections.abc.ItemsView)) and hasattr(v, "_mapping"):
        return E.call(len, v._mapping)
    return len(v)


@model(getattr)
def m_getattr(E, o, n, *d):
    if isinstance(n, Sym):
        raise Unsupported("getattr with a symbolic name")
    try:
        return E.ga(o, n)
    except AttributeError:
        if d:
            return d[0]
        raise


@model(hasattr)
def m_hasattr(E, o, n):
    return E.hasattr_(o, n)


@model(setattr)
def m_setattr(E, o, n, v):
    return E.sa(o, n, v)


@model(delattr)
def m_delattr(E, o, n):
    return E.da(o, n)


@model(vars)
def m_vars(E, o):
    return vars(o)


# ------------------------------------------------------------------------------------ numbers
def int_literal_re(base):
    d = r"\d" if base == 10 else r"[\da-fA-F]"
    pre = "" if base == 10 else "(?:0[xX]_?)?"
    return RX.parsed(rf"\s*[+-]?{pre}{d}+(?:_{d}+)*\s*", 0)


def hexval_fn():
    return z3.Function("hexval", z3.StringSort(), z3.IntSort())


def hexpad_fn(w):
    return z3.Function(f"hexpad{w}", z3.IntSort(), z3.StringSort())


_HEXL = None


def re_hex(lower=True):
    r = [z3.Range("0", "9"), z3.Range("a", "f")]
    if not lower:
        r.append(z3.Range("A", "F"))
    return z3.Union(*r)


def hexval(E, e):
    """Value of a hexadecimal digit string (defining facts for the widths in use)."""
    hv = hexval_fn()
    v = hv(e)
    A = E.solver.add
    L = z3.Length(e)
    A(v >= 0)
    zero = z3.InRe(e, z3.Plus(z3.Re(z3.StringVal("0"))))
    if not E.quant and RX.L.refuted(E.solver.assertions(), zero):
        A(v > 0)
    elif not E.quant and RX.L.refuted(E.solver.assertions(), z3.Not(zero)):
        A(v == 0)
    else:
        A((v == 0) == zero)
    for w in (1, 2, 4, 8, 16, 32):
        if not E.quant and RX.L.refuted(E.solver.assertions(), L > w):
            A(v < 16 ** w)
            break
        A(z3.Implies(L <= w, v < 16 ** w))
    for w in E.hex_widths:
        A(z3.Implies(z3.InRe(e, z3.Loop(re_hex(), w, w)), hexpad_fn(w)(v) == e))
    return v


def hexpad(E, x, w):
    E.hex_widths.add(w)
    s = hexpad_fn(w)(x)
    A = E.solver.add
    inr = z3.And(0 <= x, x < 16 ** w)
    if not E.quant and E._check0(z3.Not(inr)) == z3.unsat:
        A(z3.Length(s) == w, z3.InRe(s, z3.Loop(re_hex(), w, w)), hexval_fn()(s) == x)
    A(z3.Implies(inr, z3.And(z3.Length(s) == w, z3.InRe(s, z3.Loop(re_hex(), w, w)), hexval_fn()(s) == x)))
    A(z3.Implies(z3.And(x >= 16 ** w), z3.And(z3.Length(s) > w, hexval_fn()(s) == x)))
    A(z3.Implies(0 <= x, (x == 0) == (s == z3.StringVal("0" * w))))
    return mkstr(s)


@model(int)
def m_int(E, v=0, base=None):
    if isinstance(v, (SInt, SBool)):
        return wrapnum(num(v))
    if isinstance(v, SReal):
        return wrapnum(z3.If(v.e >= 0, z3.ToInt(v.e), -z3.ToInt(-v.e)))
    if isinstance(v, SStr):
        b = 10 if base is None else base
        e = v.e
        if b == 10:
            if E.branch(z3.InRe(e, z3.Plus(z3.Range("0", "9")))):
                E.solver.add(z3.StrToInt(e) >= 0)
                return wrapnum(z3.StrToInt(e))
        elif b == 16:
            if E.branch(z3.InRe(e, z3.Plus(re_hex(False)))):
                return wrapnum(hexval(E, e))
        else:
            raise Unsupported("int() base")
        if E.branch(RX.match_expr(int_literal_re(b), e, "fullmatch")):
            E.imprecise = True
            return E.fresh_int("intparse")
        raise ValueError("invalid literal for int()")
    if isinstance(v, Sym):
        raise TypeError("int() argument must be a string or a number")
    m = E.py_method(v, "__int__")
    if m is not None:
        return E.call(m, v)
    return int(v) if base is None else int(v, base)


@model(float)
def m_float(E, v=0.0):
    if isinstance(v, (SInt, SBool)):
        return SReal(z3.simplify(z3.ToReal(num(v))))
    if isinstance(v, SReal):
        return v
    if isinstance(v, SStr):
        E.imprecise = True
        if E.choose(2) == 0:
            return SReal(z3.Real(E.name("floatparse")))
        raise ValueError("could not convert string to float")
    return float(v)


@model(bool)
def m_bool(E, v=False):
    if isinstance(v, Sym):
        if isinstance(v, (SBool,)):
            return v
        return mkbool(E.truth_expr(v))
    return E.t(v)


@model(str)
def m_str(E, v="", *a, **k):
    if a or k:
        if has_sym(v):
            return E.opaque_str("decode")
        return str(v, *a, **k)
    return E.to_str(v)


@model(repr)
def m_repr(E, v):
    return E.to_repr(v)


@model(abs)
def m_abs(E, v):
    if isinstance(v, Sym):
        e = num(v)
        return wrapnum(z3.If(e >= 0, e, -e))
    return abs(v)


def _fold_best(E, vals, op, key):
    best = vals[0]
    bk = E.call(key, best) if key else best
    for v in vals[1:]:
        vk = E.call(key, v) if key else v
        c = E.cmp(op, vk, bk)
        if isinstance(c, SBool):
            m = E.ite_merge(c.e, v, best) if not key else MISSING
            if m is not MISSING and type(m) is not tuple:
                best = bk = m
                continue
            c = E.t(c)
        if E.t(c):
            best, bk = v, vk
    return best


def _minmax(name, op):
    def m(E, *a, key=None, default=MISSING):
        if len(a) == 1:
            q = E.as_sseq(a[0]) if isinstance(a[0], Sym) else None
            if q is not None and E.concrete_len(q) is None and key is None and E.unroll is None:
                # result: an element (or the default) bounding every element
                if E.branch(q.nexpr() == 0):
                    if default is not MISSING:
                        return default
                    raise ValueError(f"{name}() iterable argument is empty")
                i = z3.Int(E.name("arg" + name))
                E.solver.add(0 <= i, i < q.nexpr())
                r = q.at(i)
                j = z3.Int(E.name("qj"))
                E.quant += 1
                try:
                    c = compare("<=" if op == "<" else ">=", r, q.at(j))
                finally:
                    E.quant -= 1
                E.solver.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < q.nexpr()), E.truth_expr(c) if isinstance(c, Sym) else z3.BoolVal(c))))
                return r
            vals = list(E.it(a[0]))
            if not vals:
                if default is not MISSING:
                    return default
                raise ValueError(f"{name}() iterable argument is empty")
        else:
            vals = list(a)
        return _fold_best(E, vals, op, key)
    return m


MODELS[id(min)] = _minmax("min", "<")
MODELS[id(max)] = _minmax("max", ">")


def _seq_sum(E, q):
    """The sum of an unbounded numeric sequence, by linearity: constants, point updates and uninterpreted summands."""
    n = q.nexpr()
    j = z3.Int(E.name("qsum"))
    E.quant += 1
    try:
        v = q.at(j)
    finally:
        E.quant -= 1
    e = z3.simplify(num(v))
    real = e.is_real()

    def has(x):
        todo, seen = [x], set()
        while todo:
            y = todo.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            if z3.eq(y, j):
                return True
            todo += y.children()
        return False

    def go(x):
        if not has(x):
            return x * (z3.ToReal(n) if real else n)
        k = x.decl().kind()
        if k == z3.Z3_OP_ADD:
            return z3.Sum([go(c) for c in x.children()])
        if k == z3.Z3_OP_SUB:
            c = x.children()
            return go(c[0]) - z3.Sum([go(y) for y in c[1:]])
        if k == z3.Z3_OP_UMINUS:
            return -go(x.arg(0))
        if k == z3.Z3_OP_MUL and sum(has(c) for c in x.children()) == 1:
            r = None
            for c in x.children():
                t = go(c) if has(c) else c
                r = t if r is None else r * t
            return r
        if k == z3.Z3_OP_ITE:
            c, a, b = x.children()
            for neg_ in (False, True):
                if neg_:
                    if not z3.is_not(c):
                        break
                    c, a, b = c.arg(0), b, a
                if z3.is_eq(c):
                    l, r = c.children()
                    d = None
                    if z3.eq(l, j) and not has(r):
                        d = r
                    elif z3.eq(r, j) and not has(l):
                        d = l
                    if d is None:   # linear in j with coefficient +-1
                        t = z3.simplify(l - r)
                        z = z3.simplify(z3.substitute(t, (j, z3.IntVal(0))))
                        one = z3.simplify(z3.substitute(t, (j, z3.IntVal(1))) - z)
                        if z3.is_int_value(one) and abs(one.as_long()) == 1 and not has(z) and z3.is_true(z3.simplify(t - z - one * j == 0)):
                            d = z3.simplify(-z * one)
                    if d is not None:
                        at = lambda y: z3.substitute(y, (j, d))
                        return go(b) + z3.If(z3.And(0 <= d, d < n), at(a) - at(b), z3.RealVal(0) if real else z3.IntVal(0))
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1 and z3.eq(x.arg(0), j):
            f = z3.Function(f"SUM:{x.decl().name()}", z3.IntSort(), x.sort())
            E.solver.add(f(z3.IntVal(0)) == 0)
            return f(n)
        raise Unsupported("sum of an unbounded sequence")
    r = go(e)
    E.models_used.add("sum of an unbounded sequence by linearity")
    return wrapnum(z3.If(n > 0, r, z3.RealVal(0) if real else z3.IntVal(0)))


@model(sum)
def m_sum(E, it, start=0):
    q = E.as_sseq(it) if isinstance(it, Sym) else None
    if q is not None and E.concrete_len(q) is None and E.unroll is None:
        return E.bin("+", start, _seq_sum(E, q))
    r = start
    for v in E.it(it):
        r = E.bin("+", r, v)
    return r


@model(sorted)
def m_sorted(E, it, key=None, reverse=False):
    vals = list(E.it(it))
    ks = [E.call(key, v) if key else v for v in vals]
    if not any(has_sym(x) or E.py_method(x, "__lt__") for x in ks):
        idx = sorted(range(len(vals)), key=lambda i: ks[i], reverse=reverse)
        return E.new([vals[i] for i in idx])
    out: list = []
    for v, kk in zip(vals, ks):
        pos = len(out)
        while pos > 0:
            c = E.cmp("<", kk, out[pos - 1][0]) if not reverse else E.cmp("<", out[pos - 1][0], kk)
            if not E.t(c):
                break
            pos -= 1
        out.insert(pos, (kk, v))
    return E.new([v for _, v in out])


@model(any)
def m_any(E, it):
    q = E.as_sseq(it) if isinstance(it, Sym) else None
    if q is not None and E.concrete_len(q) is None and E.unroll is None:
        return E.seq_any(q, lambda v: v if isinstance(v, (SBool, bool)) else E.cmp("!=", v, 0) if is_num(v) else _tr(E, v))
    for v in E.it(it):
        if E.t(v):
            return True
    return False


def _tr(E, v):
    if isinstance(v, Sym):
        return SBool(E.truth_expr(v))
    return E.t(v)


@model(all)
def m_all(E, it):
    q = E.as_sseq(it) if isinstance(it, Sym) else None
    if q is not None and E.concrete_len(q) is None and E.unroll is None:
        r = E.seq_any(q, lambda v: negate(v) if isinstance(v, (SBool, bool)) else E.un("not", v))
        return negate(r) if isinstance(r, Sym) else not r
    for v in E.it(it):
        if not E.t(v):
            return False
    return True


@model(divmod)
def m_divmod(E, a, b):
    return (E.bin("//", a, b), E.bin("%", a, b))


@model(pow, math.pow)
def m_pow(E, a, b, *m):
    if has_sym((a, b)):
        return E.bin("**", a, b)
    return pow(a, b, *m)


@model(round)
def m_round(E, v, nd=None):
    if isinstance(v, SInt) and nd is None:
        return v
    if isinstance(v, SReal) and nd is None:
        f = z3.ToInt(v.e)
        fr = v.e - z3.ToReal(f)
        half = z3.Q(1, 2)
        return wrapnum(z3.If(fr < half, f, z3.If(fr > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))
    if isinstance(v, Sym):
        raise Unsupported("round with digits")
    return round(v) if nd is None else round(v, nd)


@model(math.floor)
def m_floor(E, v):
    if isinstance(v, SReal):
        return wrapnum(z3.ToInt(v.e))
    return v if isinstance(v, SInt) else math.floor(v)


@model(math.ceil)
def m_ceil(E, v):
    if isinstance(v, SReal):
        return wrapnum(-z3.ToInt(-v.e))
    return v if isinstance(v, SInt) else math.ceil(v)


@model(math.isnan, math.isinf)
def m_isnan(E, v):
    return False if isinstance(v, Sym) else math.isnan(v)


@model(math.isinf)
def m_isinf(E, v):
    return False if isinstance(v, Sym) else math.isinf(v)


@model(math.isfinite)
def m_isfinite(E, v):
    return True if isinstance(v, Sym) else math.isfinite(v)


@model(ctypes.c_double)
def m_c_double(E, v=0.0):
    if isinstance(v, S.SFloat):
        return _DoubleBits(v.bits)
    if isinstance(v, Sym):
        raise Unsupported("bits of a symbolic number")
    return ctypes.c_double(v)


class _DoubleBits:
    def __init__(self, bits):
        self.value = wrapnum(bits)

    def reread(self, ctype):
        if ctype is not ctypes.c_uint64:
            raise Unsupported("bits of a double read as another type")
        return self


@model(math.log)
def m_log(E, v, *base):
    if isinstance(v, Sym) and not base:
        f = z3.Function("LOG", z3.RealSort(), z3.RealSort())
        E.models_used.add("math.log uninterpreted")
        return SReal(f(num(v)))
    if has_sym((v, *base)):
        raise Unsupported("log with base")
    return math.log(v, *base)


@model(math.log2)
def m_log2(E, v):
    if isinstance(v, SInt):
        v = E.concretize(v)
    elif isinstance(v, Sym):
        raise Unsupported("log2 of a symbolic float")
    return math.log2(v)


@model(ord)
def m_ord(E, c):
    if isinstance(c, SStr):
        if E.branch(z3.Length(c.e) != 1):
            raise TypeError("ord() expected a character")
        return wrapnum(z3.StrToCode(c.e))
    return ord(c)


@model(chr)
def m_chr(E, n):
    if isinstance(n, SInt):
        if E.branch(z3.Or(n.e < 0, n.e > 0x10FFFF)):
            raise ValueError("chr() arg not in range")
        return mkstr(z3.StrFromCode(n.e))
    return chr(n)


@model(format)
def m_format(E, v, spec=""):
    return E.format_(v, spec)


@model(hex)
def m_hex(E, v):
    return hex(v) if not isinstance(v, Sym) else E.opaque_str("hex")


@model(bin)
def m_bin(E, v):
    return bin(v) if not isinstance(v, Sym) else E.opaque_str("bin")


# ------------------------------------------------------------------------------------ iteration
@model(iter)
def m_iter(E, v, *a):
    if a:
        return iter(v, *a)
    v = E.resolve_iter(v)
    if isinstance(v, SIter):
        return v
    q = E.as_sseq(v) if isinstance(v, Sym) else None
    if q is not None and E.concrete_len(q) is None:
        return SIter(q)
    return iter(E.it(v))


def _view_iter(make):
    def f(E, view):
        mp = view._mapping
        it = E.resolve_iter(mp)
        q = E.as_sseq(it) if isinstance(it, Sym) else None
        if q is not None and E.concrete_len(q) is None:
            return SIter(SSeq(q.n, lambda i: make(E, mp, q.at(i)), list, q.name))

        def g():
            for k in E.it(it):
                yield make(E, mp, k)
        return g()
    return f


model(collections.abc.ItemsView.__iter__)(_view_iter(lambda E, m, k: (k, E.gi(m, k))))
model(collections.abc.ValuesView.__iter__)(_view_iter(lambda E, m, k: E.gi(m, k)))
model(collections.abc.KeysView.__iter__)(_view_iter(lambda E, m, k: k))


@model(next)
def m_next(E, it, *d):
    if isinstance(it, SIter):
        q = it.seq
        p = iexpr(it.pos)
        if not E.branch(p < q.nexpr()):
            if d:
                return d[0]
            raise StopIteration
        it.pos = z3.simplify(p + 1)
        if z3.is_int_value(it.pos):
            it.pos = it.pos.as_long()
        return q.at(p)
    n = E.py_method(it, "__next__")
    if n is not None:
        try:
            return E.call(n, it)
        except StopIteration:
            if d:
                return d[0]
            raise
    return next(it, *d)


@model(enumerate)
def m_enumerate(E, it, start=0):
    q = E.as_sseq(it) if isinstance(it, Sym) else None
    if q is not None and E.concrete_len(q) is None:
        return SIter(SSeq(q.n, lambda i: (wrapnum(iexpr(i) + start), q.at(i)), list, q.name))
    return enumerate(E.it(it), start)


@model(zip)
def m_zip(E, *its, strict=False):
    qs = [E.as_sseq(i, True) if isinstance(i, (Sym, list, tuple)) else None for i in its]
    if its and all(q is not None for q in qs) and any(E.concrete_len(q) is None for q in qs):
        n = qs[0].nexpr()
        for q in qs[1:]:
            n = z3.If(q.nexpr() < n, q.nexpr(), n)
        nm = next((q.name for q in qs if q.name), None)
        return SIter(SSeq(z3.simplify(n), lambda i: tuple(q.at(i) for q in qs), list, nm))
    return zip(*[E.it(i) for i in its])


@model(map)
def m_map(E, f, *its):
    if len(its) == 1:
        q = E.as_sseq(its[0]) if isinstance(its[0], Sym) else None
        if q is not None and E.concrete_len(q) is None and E.unroll is None:
            return E.lazy_map("gen", q, lambda x: E.call(f, x))

    def g():
        for xs in zip(*[E.it(i) for i in its]):
            yield E.call(f, *xs)
    return g()


@model(filter)
def m_filter(E, f, it):
    def g():
        for x in E.it(it):
            if E.t(E.call(f, x) if f is not None else x):
                yield x
    return g()


@model(functools.reduce)
def m_reduce(E, f, it, *init):
    it = iter(E.it(it))
    r = init[0] if init else next(it)
    for x in it:
        r = E.call(f, r, x)
    return r


@model(range)
def m_range(E, *a):
    if not any(isinstance(x, Sym) for x in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) == 3 else 1)
    if isinstance(st, Sym) or st not in (1, -1):
        st = E.concretize(st)
    lo, hi = intexpr(lo), intexpr(hi)
    if st < 0:
        n = z3.simplify(z3.If(lo - hi <= 0, z3.IntVal(0), (lo - hi + (-st) - 1) / (-st)))
    else:
        n = z3.simplify(z3.If(hi - lo <= 0, z3.IntVal(0), (hi - lo + st - 1) / st))
    if z3.is_int_value(n) and z3.is_int_value(z3.simplify(lo)):
        l0 = z3.simplify(lo).as_long()
        return range(l0, l0 + st * n.as_long(), st)
    return SSeq(n, lambda i: wrapnum(lo + iexpr(i) * st), range, "range")


@model(reversed)
def m_reversed(E, v):
    q = E.as_sseq(v) if isinstance(v, Sym) else None
    if q is not None:
        return SIter(seq_reversed(q))
    m = E.py_method(v, "__reversed__")
    if m is not None:
        return E.it(E.call(m, v))
    return reversed(v)


@model(itertools.chain)
def m_chain(E, *its):
    def g():
        for i in its:
            yield from E.it(i)
    if any(isinstance(i, Sym) for i in its):
        qs = [E.as_sseq(i, True) for i in its]
        if all(q is not None for q in qs):
            r = qs[0]
            for q in qs[1:]:
                r = seq_concat(r, q, list)
            return SIter(r)
    return g()


@model(itertools.chain.from_iterable)
def m_chain_fi(E, it):
    def g():
        for i in E.it(it):
            yield from E.it(i)
    return g()


@model(itertools.islice)
def m_islice(E, it, *a):
    if any(isinstance(x, Sym) for x in a):
        a = tuple(E.concretize(x) if isinstance(x, Sym) else x for x in a)
    return itertools.islice(E.it(it), *a)


# ------------------------------------------------------------------------------------ containers
@model(list)
def m_list(E, it=()):
    it = E.resolve_iter(it)
    if isinstance(it, Sym):
        q = E.as_sseq(it)
        if q is not None:
            if isinstance(it, SIter):
                it.pos = q.nexpr()
            return E.new(SList(q, list)) if E.concrete_len(q) is None else E.new([q.at(z3.IntVal(j)) for j in range(E.concrete_len(q))])
    return E.new(list(E.it(it)))


@model(tuple)
def m_tuple(E, it=()):
    it = E.resolve_iter(it)
    if isinstance(it, Sym):
        q = E.as_sseq(it)
        if q is not None:
            if isinstance(it, SIter):
                it.pos = q.nexpr()
            c = E.concrete_len(q)
            if c is not None:
                return tuple(q.at(z3.IntVal(j)) for j in range(c))
            return SSeq(q.n, q.at, tuple, q.name)
    return tuple(E.it(it))


@model(dict)
def m_dict(E, *a, **k):
    if a and isinstance(a[0], SODict):
        d = E.new(a[0].fork(dict))
    elif a and isinstance(a[0], SMap):
        d = E.new(a[0].fork(dict))
    elif a and isinstance(a[0], Sym) and getattr(E.as_sseq(a[0]), "of_map", None) is not None:
        d = E.new(E.as_sseq(a[0]).of_map.fork(dict))
    else:
        d = E.new({})
        if a:
            E.dict_update(d, a[0])
    for kk, v in k.items():
        E.si(d, kk, v)
    return d


class EODict(collections.OrderedDict):
    """OrderedDict whose iteration does not hash symbolic keys."""

    def _keys(self):
        e = S.E
        if e is None:
            return list(collections.OrderedDict.__iter__(self))
        ok, e.hash_ok = e.hash_ok, True
        try:
            return list(collections.OrderedDict.__iter__(self))
        finally:
            e.hash_ok = ok

    def __iter__(self):
        return iter(self._keys())

    def keys(self):
        return self._keys()

    def items(self):
        return [(k, S.E._dget(self, k)) for k in self._keys()]

    def values(self):
        return [S.E._dget(self, k) for k in self._keys()]

    def copy(self):
        d = EODict()
        for k in self._keys():
            S.E._dset(d, k, S.E._dget(self, k))
        return d


@model(collections.OrderedDict)
def m_odict(E, *a, **k):
    if a and isinstance(a[0], (SMap, SODict)):
        return E.new(a[0].fork(collections.OrderedDict))
    d = E.new(EODict())
    if a:
        E.dict_update(d, a[0])
    for kk, v in k.items():
        E.si(d, kk, v)
    return d


@model(collections.defaultdict)
def m_ddict(E, f=None, *a, **k):
    d = E.new(collections.defaultdict(f))
    if a:
        E.dict_update(d, a[0])
    return d


@model(set)
def m_set(E, it=()):
    return E.make_set(E.it(it), False)


@model(frozenset)
def m_frozenset(E, it=()):
    return E.make_set(E.it(it), True)


@model(collections.deque)
def m_deque(E, it=(), maxlen=None):
    it = E.resolve_iter(it)
    if True:
        q = E.as_sseq(it, True)
        if q is None:
            q = seq_of(list(E.it(it)))
        if maxlen is not None:
            if E.t(E.cmp("<", maxlen, 0)):
                raise ValueError("maxlen must be non-negative")
            ml = intexpr(maxlen)
            n = q.nexpr()
            lo = z3.simplify(z3.If(n > ml, n - ml, 0))
            q = seq_slice(q, lo, n)
        q = SSeq(q.n, q.at, collections.deque, q.name)
        return E.new(SList(q, collections.deque, maxlen))


@model(types.MappingProxyType)
def m_mproxy(E, m):
    if isinstance(m, (SMap, SODict)):
        r = m.fork(types.MappingProxyType)
        return r
    return types.MappingProxyType(m)


@model(slice)
def m_slice(E, *a):
    return slice(*a)


@model(object)
def m_object(E):
    return object()


@model(bytes)
def m_bytes(E, *a, **k):
    if isinstance(a[0] if a else None, SBytesInt):
        return a[0]
    if has_sym(a):
        raise Unsupported("bytes()")
    return bytes(*a, **k)


@model(print)
def m_print(E, *a, **k):
    return None


@model(super)
def m_super(E, *a):
    return super(*a)


safe(object.__new__, tuple.__new__, object.__setattr__, object.__init__, contextvars.ContextVar, weakref.ref, weakref.proxy,
     functools.partial, staticmethod, classmethod, property, typing.cast, operator.itemgetter, operator.attrgetter,
     copy.copy, Exception, functools.wraps, weakref.WeakMethod)


@model(typing.cast)
def m_cast(E, t, v):
    return v


@model(copy.copy)
def m_copy(E, v):
    if isinstance(v, SList):
        return v.m_copy()
    if isinstance(v, (SMap, SODict)):
        return E.new(v.fork())
    if isinstance(v, Sym):
        return v
    m = E.py_method(v, "__copy__")
    if m is not None:
        return E.call(m, v)
    r = copy.copy(v) if not isinstance(v, dict) else E.call(type(v), v) if type(v) in (dict, collections.OrderedDict, EODict) else copy.copy(v)
    return E.new(r)


@model(copy.deepcopy)
def m_deepcopy(E, v, memo=None):
    if isinstance(v, PRIM) or isinstance(v, (SInt, SBool, SReal, SStr, types.FunctionType, enum.Enum)):
        return v
    if isinstance(v, SSeq):
        return v
    if isinstance(v, SList):
        return v.m_copy()
    if isinstance(v, SMap):
        return E.new(v.fork())
    if type(v) is list:
        return E.new([m_deepcopy(E, x) for x in v])
    if type(v) is tuple:
        return tuple(m_deepcopy(E, x) for x in v)
    if type(v) is dict:
        r = E.new({})
        for k, x in v.items():
            E._dset(r, k, m_deepcopy(E, x))
        return r
    m = E.py_method(v, "__deepcopy__")
    if m is not None:
        return E.call(m, v, memo if memo is not None else {})
    if type(v).__module__.startswith("opentelemetry") and type(v).__reduce_ex__ is object.__reduce_ex__ and not hasattr(type(v), "__getstate__x"):
        r = E.new(object.__new__(type(v)))
        for k, x in getattr(v, "__dict__", {}).items():
            object.__setattr__(r, k, m_deepcopy(E, x))
        return r
    if has_sym(v):
        raise Unsupported("deepcopy")
    return E.new(copy.deepcopy(v))


PRIM = (bool, int, float, str, bytes, type(None))


@model(dataclasses.replace)
def m_replace(E, obj, **ch):
    for f in dataclasses.fields(obj):
        if f.init and f.name not in ch:
            ch[f.name] = getattr(obj, f.name)
    return E.call(type(obj), **ch)


@model(dataclasses.asdict)
def m_asdict(E, o, **k):
    raise Unsupported("dataclasses.asdict") if has_sym(tuple(vars(o).values())) else None


@model(bisect.bisect_left)
def m_bisect_left(E, a, x, lo=0, hi=None, key=None):
    """Contract: the partition point, for a sorted sequence (sortedness is an obligation when symbolic)."""
    if lo != 0 or hi is not None or key is not None:
        raise Unsupported("bisect with bounds")
    return _bisect(E, a, x, True)


@model(bisect.bisect_right)
def m_bisect_right(E, a, x, lo=0, hi=None, key=None):
    if lo != 0 or hi is not None or key is not None:
        raise Unsupported("bisect with bounds")
    return _bisect(E, a, x, False)


def _bisect(E, a, x, left):
    q = E.as_sseq(a, True)
    if q is None:
        raise Unsupported("bisect")
    c = E.concrete_len(q)
    if c is not None and c <= 64 and not any(has_sym(q.at(z3.IntVal(j))) for j in range(c)):
        vals = [q.at(z3.IntVal(j)) for j in range(c)]
        if not isinstance(x, Sym):
            return (bisect.bisect_left if left else bisect.bisect_right)(vals, x)
        r = 0
        for v in vals:
            cnd = compare("<" if left else "<=", v, x)
            r = arith("+", r, SInt(z3.If(E.truth_expr(cnd), 1, 0)) if isinstance(cnd, Sym) else int(cnd))
        if vals == sorted(vals):
            return r
    n = q.nexpr()
    p = z3.Int(E.name("bis"))
    E.solver.add(0 <= p, p <= n)

    def ce(op, i):
        E.quant += 1
        try:
            r = compare(op, q.at(i), x)
        finally:
            E.quant -= 1
        return r.e if isinstance(r, SBool) else z3.BoolVal(bool(r))

    # valid for sorted sequences: instantiated at the partition point and for all indexes
    E.solver.add(z3.Implies(p > 0, ce("<" if left else "<=", z3.simplify(p - 1))))
    E.solver.add(z3.Implies(p < n, ce(">=" if left else ">", p)))
    E.models_used.add("bisect (argument sorted)")
    return wrapnum(p)


# ------------------------------------------------------------------------------------ clock, ids, environment
@model(time.time_ns, time.monotonic_ns, time.perf_counter_ns)
def m_time_ns(E):
    return E.clock_ns()


@model(time.time, time.monotonic, time.perf_counter)
def m_time(E):
    if E.clock_fn is not None:
        return E.bin("/", E.clock_ns(), 10 ** 9)
    r = SReal(z3.Real(E.name("now")))
    E.solver.add(r.e >= 0)
    return r


@model(time.sleep)
def m_sleep(E, s):
    E.sleeps.append(s)
    return None


@model(random.getrandbits)
def m_getrandbits(E, k):
    v = SInt(z3.Int(E.name("rand")))
    E.solver.add(v.e >= 0, v.e < 2 ** k)
    return v


@model(random.randrange)
def m_randrange(E, a, b=None):
    lo, hi = (0, a) if b is None else (a, b)
    v = SInt(z3.Int(E.name("rand")))
    E.solver.add(v.e >= intexpr(lo), v.e < intexpr(hi))
    return v


@model(random.randint)
def m_randint(E, a, b):
    v = SInt(z3.Int(E.name("rand")))
    E.solver.add(v.e >= intexpr(a), v.e <= intexpr(b))
    return v


@model(random.random)
def m_random(E):
    v = SReal(z3.Real(E.name("rand")))
    E.solver.add(v.e >= 0, v.e < 1)
    return v


@model(random.uniform)
def m_uniform(E, a, b):
    v = SReal(z3.Real(E.name("rand")))
    x, y = num(a), num(b)
    E.solver.add(v.e >= z3.If(x < y, x, y), v.e <= z3.If(x < y, y, x))
    return v


@model(os.getenv)
def m_getenv(E, k, d=None):
    return env_method(E, "get", (k, d))


def env_method(E, name, a):
    k = a[0] if a else None
    if name == "get":
        if k in E.env:
            v = E.env[k]
            return (a[1] if len(a) > 1 else None) if v is None else v
        return os.environ.get(*a)
    if name == "__getitem__":
        if k in E.env:
            if E.env[k] is None:
                raise KeyError(k)
            return E.env[k]
        return os.environ[k]
    if name == "__contains__":
        return E.env[k] is not None if k in E.env else k in os.environ
    raise Unsupported("os.environ." + name)


@model(warnings.warn, atexit.register, atexit.unregister, traceback.print_exc)
def m_noop(E, *a, **k):
    return None


@model(traceback.format_exc)
def m_tb(E, *a, **k):
    return E.opaque_str("traceback")


@model(traceback.format_exception, traceback.format_stack, traceback.format_tb, traceback.print_exception)
def m_tbs(E, *a, **k):
    return E.new([E.opaque_str("traceback")])


if hasattr(os, "register_at_fork"):
    MODELS[id(os.register_at_fork)] = m_noop

for _n in ("debug", "info", "warning", "error", "exception", "critical", "log", "warn"):
    model(getattr(logging.Logger, _n))(lambda E, *a, **k: None)
    model(getattr(logging, _n, None) or object())(lambda E, *a, **k: None)


@model(json.dumps)
def m_json(E, v, *a, **k):
    if not has_sym(v, 6):
        return json.dumps(v, *a, **k)
    if a or set(k) - {"separators", "default", "sort_keys"}:
        return E.opaque_str("json")
    sep, col = k.get("separators") or (", ", ": ")
    try:
        parts = json_parts(E, v, sep, col, k.get("sort_keys", False))
    except Unsupported:
        return E.opaque_str("json")
    e = [strexpr(x) for x in parts]
    return mkstr(z3.Concat(*e) if len(e) > 1 else e[0])


def json_plain(E, e, plain):
    """Is every character of the text one that JSON keeps as it is?"""
    if z3.is_string_value(e):
        return re.fullmatch(r"[ !#-\[\]-~]*", RX.L.pystr(e)) is not None
    k = e.decl().kind()
    if k == z3.Z3_OP_INT_TO_STR or e.decl().name() == "repr_real":
        return True
    if k == z3.Z3_OP_SEQ_CONCAT:
        return all(json_plain(E, c, plain) for c in e.children())
    if k == z3.Z3_OP_ITE:
        return all(json_plain(E, c, plain) for c in e.children()[1:])
    if k == z3.Z3_OP_SEQ_EXTRACT:
        return json_plain(E, e.arg(0), plain)
    return RX.L.refuted(E.solver.assertions(), z3.Not(z3.InRe(e, plain)))


def json_text(E, s):
    """A JSON string literal: quotes around the escaped text; printable ASCII without quote and backslash is kept."""
    e = strexpr(s)
    plain = z3.Star(z3.Union(z3.Range(" ", "!"), z3.Range("#", "["), z3.Range("]", "~")))
    if not E.quant and json_plain(E, e, plain):
        return ['"', s, '"']
    f = z3.Function("json_escape", z3.StringSort(), z3.StringSort())
    r = f(e)
    if not E.quant:
        E.imprecise = True
        E.solver.add(z3.Implies(z3.InRe(e, plain), r == e), z3.Length(r) >= z3.Length(e), z3.InRe(r, z3.Star(z3.Range(" ", "~"))))
    return ['"', mkstr(r), '"']


def json_parts(E, v, sep, col, sort_keys):
    if isinstance(v, SStr):
        return json_text(E, v)
    if isinstance(v, SBool):
        return ["true"] if E.t(v) else ["false"]
    if isinstance(v, SInt):
        return [E.call(str, v)]
    if isinstance(v, SReal):
        return [E.call(repr, v)]
    if isinstance(v, (list, tuple)):
        out = ["["]
        for i, x in enumerate(v):
            out += ([sep] if i else []) + json_parts(E, x, sep, col, sort_keys)
        return out + ["]"]
    if isinstance(v, dict):
        out = ["{"]
        items = list(v.items())
        if len(items) > 1 and sort_keys:
            if any(sym_key(kk) for kk, _ in items):
                raise Unsupported("sorted symbolic keys")
            items.sort(key=lambda kv: kv[0])
        for i, (kk, x) in enumerate(items):
            if not isinstance(kk, (str, SStr)):
                raise Unsupported("key of a JSON object")
            out += ([sep] if i else []) + (json_text(E, kk) if isinstance(kk, SStr) else [json.dumps(kk)]) + [col] + json_parts(E, x, sep, col, sort_keys)
        return out + ["}"]
    if isinstance(v, Sym):
        raise Unsupported("JSON of " + type(v).__name__)
    return [json.dumps(v)]


# ------------------------------------------------------------------------------------ threads (single-threaded view)
class ELock:
    def __init__(self, reentrant=False):
        self.n = 0
        self.re = reentrant

    def acquire(self, blocking=True, timeout=-1):
        if self.n and not self.re:
            if blocking and timeout == -1 and S.E is not None:
                S.E.fail_now("no-self-deadlock", "a held lock is acquired again")
            return False
        self.n += 1
        return True

    def release(self):
        if self.n == 0:
            raise RuntimeError("release unlocked lock")
        self.n -= 1

    def locked(self):
        return self.n > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()
        return None


class ECondition(ELock):
    def __init__(self, lock=None):
        super().__init__(True)
        self.lock = lock
        self.notified = 0

    def wait(self, timeout=None):
        return True

    def wait_for(self, pred, timeout=None):
        return S.E.call(pred)

    def notify(self, n=1):
        self.notified += 1

    def notify_all(self):
        self.notified += 1


class EEvent:
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    isSet = is_set

    def wait(self, timeout=None):
        if S.E is not None:
            S.E.sleeps.append(timeout)
            f = S.E.wait_fn
            if f is not None:
                r = S.E.call(f, self, timeout)
                return r
        return self.flag


class EThread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.name, self.args, self.kwargs, self.daemon = target, name, args, kwargs or {}, daemon
        self.started = False
        self.joined = False
        self.ident = None

    def start(self):
        self.started = True

    def join(self, timeout=None):
        self.joined = True

    def is_alive(self):
        return self.started and not self.joined


class EFuture:
    """A task of a thread pool. It runs when submitted or, in lazy mode, when somebody waits for it: the two extreme schedules."""

    def __init__(self, fn, a, k, n=0):
        self.exc = None
        self.val = None
        self.n = n
        self.todo = (fn, a, k)
        if not S.E.lazy_tasks:
            self.run()

    def __hash__(self):
        return self.n

    def run(self):
        if self.todo is not None:
            (fn, a, k), self.todo = self.todo, None
            try:
                self.val = S.E.call(fn, *a, **k)
            except Exception as e:
                self.exc = e

    def result(self, timeout=None):
        self.run()
        if self.exc is not None:
            raise self.exc
        return self.val

    def exception(self, timeout=None):
        self.run()
        return self.exc

    def done(self):
        return self.todo is None


class EExecutor:
    def __init__(self, *a, **k):
        self.down = False
        self.tasks = []

    def submit(self, fn, /, *a, **k):
        f = EFuture(fn, a, k, len(self.tasks))
        self.tasks.append(f)
        return f

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*(S.E.it(i) for i in its))]
        return (f.result() for f in fs)

    def shutdown(self, wait=True, **k):
        self.down = True
        if wait:
            for f in self.tasks:
                f.run()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


ENGINE_CLASSES = (ELock, ECondition, EEvent, EThread, EFuture, EExecutor)


@model(threading.Lock)
def m_lock(E):
    return ELock(False)


@model(threading.RLock)
def m_rlock(E):
    return ELock(True)


@model(threading.Condition)
def m_cond(E, lock=None):
    return ECondition(lock)


@model(threading.Event)
def m_event(E):
    return EEvent()


@model(threading.Thread)
def m_thread(E, *a, **k):
    return EThread(*a, **k)


import concurrent.futures as _cf  # noqa: E402


@model(_cf.ThreadPoolExecutor)
def m_tpe(E, *a, **k):
    return EExecutor(*a, **k)


@model(_cf.wait)
def m_cfwait(E, fs, timeout=None, return_when=None):
    r = E.futures_wait
    fs = list(E.it(fs))
    if r is not None:
        return E.call(r, fs, timeout)
    for f in fs:
        f.run()
    return _cf._base.DoneAndNotDoneFutures(set(fs), set())


@model(_cf.as_completed)
def m_ascompleted(E, fs, timeout=None):
    fs = list(E.it(fs))
    for f in fs:
        f.run()
    return fs


# ------------------------------------------------------------------------------------ urls
def uq_fn():
    return z3.Function("quote_plus", z3.StringSort(), z3.StringSort()), z3.Function("unquote_plus", z3.StringSort(), z3.StringSort())


_SAFE_Q = None


def re_quoted():
    """Alphabet of quote_plus results: [A-Za-z0-9_.~+%-]"""
    return z3.Star(z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), z3.Range("0", "9"), z3.Re("_"), z3.Re("."), z3.Re("-"), z3.Re("~"), z3.Re("+"), z3.Re("%")))


def _quote(kind):
    def m(E, s, *a, **k):
        if not isinstance(s, Sym):
            if not isinstance(s, (str, bytes)):
                raise TypeError("quote_from_bytes() expected bytes")
            return kind(s, *a, **k)
        if not isinstance(s, SStr):
            raise TypeError("quote_from_bytes() expected bytes")
        nm = kind.__name__
        q = z3.Function(nm, z3.StringSort(), z3.StringSort())
        u = z3.Function("un" + nm, z3.StringSort(), z3.StringSort())
        r = q(s.e)
        safe = a[0] if a else k.get("safe", "/" if kind is urllib.parse.quote else "")
        if not isinstance(safe, str) or set(k) - {"safe"} or len(a) > 1:
            raise Unsupported(f"{nm} with these arguments")
        if safe not in ("", "/"):
            q = z3.Function(nm + "_" + safe, z3.StringSort(), z3.StringSort())
            r = q(s.e)
        alpha = re_quoted()
        if safe:
            alpha = z3.Star(z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), z3.Range("0", "9"), z3.Re("_"), z3.Re("."), z3.Re("-"), z3.Re("~"), z3.Re("+"), z3.Re("%"),
                                     *[z3.Re(sval(c)) for c in safe]))
        E.solver.add(u(r) == s.e, z3.InRe(r, alpha), z3.Length(r) <= 12 * z3.Length(s.e), (r == z3.StringVal("")) == (s.e == z3.StringVal("")), z3.Length(r) >= z3.Length(s.e))
        plain = z3.Star(z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), z3.Range("0", "9"), z3.Re("_"), z3.Re("."), z3.Re("-"), z3.Re("~")))
        E.solver.add(z3.Implies(z3.InRe(s.e, plain), r == s.e))
        E.models_used.add(f"urllib.parse.{nm}: inverse of un{nm}, output alphabet [A-Za-z0-9_.~+%-]")
        return mkstr(r)
    return m


def _unquote(kind):
    def m(E, s, *a, **k):
        if not isinstance(s, Sym):
            return kind(s, *a, **k)
        if not isinstance(s, SStr):
            raise TypeError("argument of type is not iterable")
        u = z3.Function(kind.__name__, z3.StringSort(), z3.StringSort())
        r = u(s.e)
        plain = z3.Star(z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), z3.Range("0", "9"), z3.Re("_"), z3.Re("."), z3.Re("-"), z3.Re("~")))
        E.solver.add(z3.Implies(z3.InRe(s.e, plain), r == s.e), z3.Implies(z3.Length(s.e) > 0, z3.Length(r) > 0))
        return mkstr(r)
    return m


for _f in (urllib.parse.quote_plus, urllib.parse.quote):
    MODELS[id(_f)] = _quote(_f)
for _f in (urllib.parse.unquote_plus, urllib.parse.unquote):
    MODELS[id(_f)] = _unquote(_f)


# ------------------------------------------------------------------------------------ re
def _re_fn(mode):
    def m(E, pattern, s, flags=0):
        if isinstance(pattern, re.Pattern):
            return re_method(E, pattern, mode, (s,), {})
        if isinstance(s, SStr):
            return RX.do_match(pattern, flags, s, mode)
        return getattr(re, mode)(pattern, s, flags)
    return m


MODELS[id(re.match)] = _re_fn("match")
MODELS[id(re.fullmatch)] = _re_fn("fullmatch")
MODELS[id(re.search)] = _re_fn("search")


@model(fnmatch.fnmatch)
@model(fnmatch.fnmatchcase)
def m_fnmatch(E, name, pat):
    if not has_sym((name, pat)):
        return fnmatch.fnmatch(name, pat)
    if isinstance(pat, SStr):
        for ch in "*?[":
            if E.branch(z3.Contains(pat.e, z3.StringVal(ch))):
                raise Unsupported("fnmatch with a symbolic wildcard")
        return E.cmp("==", name, pat)
    if not isinstance(name, SStr):
        raise TypeError("expected str, bytes or os.PathLike object")
    t = fnmatch.translate(pat)
    if not (t.startswith("(?s:") and t.endswith(r")\Z")):
        raise Unsupported("form of a translated wildcard")
    return RX.do_match(t[4:-3], re.S, name, "fullmatch") is not None


@model(re.split)
def m_resplit(E, pattern, s, maxsplit=0, flags=0):
    p = pattern if isinstance(pattern, re.Pattern) else re.compile(pattern, flags)
    return re_method(E, p, "split", (s,), {})


@model(re.sub)
def m_resub(E, pattern, repl, s, count=0, flags=0):
    p = pattern if isinstance(pattern, re.Pattern) else re.compile(pattern, flags)
    return re_method(E, p, "sub", (repl, s), {})


def re_method(E, p, name, a, k):
    if not has_sym(a) and not has_sym(tuple(k.values())):
        return getattr(p, name)(*a, **k)
    if name in ("match", "fullmatch", "search"):
        if not isinstance(a[0], SStr):
            raise TypeError("expected string or bytes-like object")
        return RX.do_match(p.pattern, p.flags & ~re.UNICODE, a[0], name)
    if name == "split":
        s = a[0]
        f = getattr(s, "parts", None)
        hook = E.split_hooks.get(p.pattern)
        if hook is not None:
            r = hook(s)
            if r is not None:
                return r
        return re_split(E, p, s)
    if name == "sub":
        repl, s = a[0], a[1]
        return re_sub(E, p, repl, s)
    raise Unsupported("re." + name)


def delimiter_of(p):
    """(blank characters, separator) of a pattern like [ \t]*,[ \t]*"""
    C = RX.C
    its = list(RX.P.parse(p.pattern, p.flags & ~re.UNICODE))

    def blanks(it):
        op, av = it
        if op is C.MAX_REPEAT and av[0] == 0 and av[1] is C.MAXREPEAT and len(av[2]) == 1:
            o2, a2 = av[2][0]
            if o2 is C.LITERAL:
                return {chr(a2)}
            if o2 is C.IN and all(o is C.LITERAL for o, _ in a2):
                return {chr(x) for _, x in a2}
        return None
    if len(its) == 1 and its[0][0] is C.LITERAL:
        return set(), chr(its[0][1])
    if len(its) == 3 and its[1][0] is C.LITERAL:
        b1, b2, c = blanks(its[0]), blanks(its[2]), chr(its[1][1])
        if b1 and b1 == b2 and c not in b1:
            return b1, c
    raise Unsupported("re.split of a symbolic string")


def unjoin(E, s, sep, blanks=()):
    """The parts of a joined string, when they provably come back out of a split; None otherwise."""
    if not isinstance(s, SJoined) or s.sep != sep:
        return None
    n = s.seq.nexpr()
    if E.branch(n == 0):
        return E.new([""])
    j = z3.Int(E.name("part"))
    E.solver.push()
    try:
        E.solver.add(0 <= j, j < n)
        x = strexpr(s.seq.at(j))
        bad = [z3.Contains(x, sval(sep))]
        for b in blanks:
            bad += [z3.PrefixOf(sval(b), x), z3.SuffixOf(sval(b), x)]
        for f in bad:
            if E._check(f) != z3.unsat:
                return None
    finally:
        E.solver.pop()
    return E.new(SList(SSeq(s.seq.n, s.seq.at, list, s.seq.name or "split"), list))


def re_split(E, p, s):
    blanks, sep = delimiter_of(p)
    r = unjoin(E, s, sep, blanks)
    if r is not None:
        return r
    e, z = strexpr(s), sval(sep)
    r = RX.rope_split(e, sep, -1, "".join(blanks))
    if r is not None:
        return E.new(r)
    bre = z3.Star(z3.Union(*[z3.Re(sval(b)) for b in blanks]) if len(blanks) > 1 else z3.Re(sval(next(iter(blanks))))) if blanks else RX.empty_str()

    def no_front(x):
        return z3.And(*[z3.Not(z3.PrefixOf(sval(b), x)) for b in blanks])

    def no_back(x):
        return z3.And(*[z3.Not(z3.SuffixOf(sval(b), x)) for b in blanks])
    if E.split_bound is not None:
        out, rest, limit = [], e, E.split_bound
        while E.branch(z3.Contains(rest, z)):
            if limit == 0:
                E.over_unroll("split")
            limit -= 1
            x, y = z3.String(E.name("sp")), z3.String(E.name("rest"))
            w1, w2 = z3.String(E.name("ws")), z3.String(E.name("ws"))
            E.solver.add(rest == z3.Concat(x, w1, z, w2, y), z3.Not(z3.Contains(x, z)), no_back(x), no_front(y), z3.InRe(w1, bre), z3.InRe(w2, bre))
            out.append(mkstr(x))
            rest = y
        out.append(mkstr(rest))
        return E.new(out)
    n = z3.Int(E.name("nparts"))
    E.imprecise = True
    f = z3.Function(E.name("part"), z3.IntSort(), z3.StringSort())
    E.solver.add(n >= 1, (n == 1) == z3.Not(z3.Contains(e, z)), z3.Implies(n == 1, f(0) == e), z3.Implies(n >= 2, z3.PrefixOf(f(0), e)))

    def at(i):
        i = iexpr(i)
        if not E.quant:
            x = f(i)
            E.solver.add(z3.Not(z3.Contains(x, z)), z3.Implies(z3.And(0 <= i, i < n), z3.Contains(e, x)), z3.Length(x) <= z3.Length(e))
            if blanks:
                E.solver.add(z3.Implies(i > 0, no_front(x)), z3.Implies(i < n - 1, no_back(x)))
        return mkstr(f(i))
    return E.new(SList(SSeq(n, at, list, "split"), list))


def re_sub(E, p, repl, s):
    """Replacement of every match; exact languages are known for classes of characters, alone or repeated."""
    pr = RX.parsed(p.pattern, p.flags & ~re.UNICODE)
    E.imprecise = True
    e = strexpr(s)
    if not isinstance(repl, str) or "\\" in repl:
        return mkstr(z3.String(E.name("resub")))
    key = (e.get_id(), "re.sub", p.pattern, p.flags, repl)
    if key in E.strip_memo:
        return mkstr(E.strip_memo[key][1])
    r = z3.String(E.name("resub"))
    if not E.merging and not E.quant:
        E.strip_memo[key] = (e, r)
    A = E.solver.add
    # facts: no match -> unchanged; with a literal replacement containing no match, the result has no match
    A(z3.Implies(z3.Not(RX.match_expr(pr, e, "search")), r == e))
    if pr.start is None and pr.end is None and len(pr.items) == 1 and pr.items[0][0] in (RX.C.IN, RX.C.LITERAL, RX.C.NOT_LITERAL):
        A(z3.Not(RX.match_expr(pr, r, "search")) if not p.search(repl) else z3.BoolVal(True))
        if len(repl) == 1:
            A(z3.Length(r) == z3.Length(e))
    m = re.fullmatch(r"\[(\^?)((?:[^\]\\]|\\.)+)\]\+", p.pattern)
    if m and len(repl) == 1:
        keep = "[%s%s]" % ("" if m[1] else "^", m[2])
        q = re.escape(repl)

        def lang(text, x):
            return RX.match_expr(RX.parsed(text, p.flags & ~re.UNICODE | re.S), x, "fullmatch")
        A(lang(f"{keep}*(?:{q}{keep}+)*{q}?", r), z3.Length(r) <= z3.Length(e), (z3.Length(r) == 0) == (z3.Length(e) == 0))
        A(z3.Implies(lang(f"[{m[1]}{m[2]}].*", e), z3.PrefixOf(sval(repl), r)))
        for part in re.findall(r"\\.|[^\\]-[^\\]|[^\\]", m[2]) if m[1] else [m[2]]:
            A(z3.Implies(lang(f"[{part}].*", e), lang(f"[{part}].*", r)))
        # a text whose stretches to replace are already the replacement comes back as it is
        A(z3.Implies(lang(f"{keep}*(?:{q}{keep}+)*{q}?", e), r == e))
    return mkstr(r)


# ------------------------------------------------------------------------------------ string methods
WS_ASCII = " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0"


def _chars_re(chars):
    return RX.union(z3.Re(sval(c)) for c in chars)


def _ws_re():
    return RX.union(RX.range_re(lo, hi) for lo, hi in RX.class_ranges(RX.C.CATEGORY_SPACE, False))


def str_method(E, s, name, a, k):
    e = strexpr(s)
    A = E.solver.add
    if name in ("startswith", "endswith"):
        p = a[0]
        if isinstance(p, tuple):
            return E.disj(str_method(E, s, name, (x,), {}) for x in p)
        return mkbool(z3.PrefixOf(strexpr(p), e) if name == "startswith" else z3.SuffixOf(strexpr(p), e))
    if name in ("strip", "lstrip", "rstrip"):
        cls = _ws_re() if not a or a[0] is None else _chars_re(a[0]) if isinstance(a[0], str) else None
        if cls is None:
            raise Unsupported("strip by a symbolic set")
        anyc = RX.allchar()
        t = RX.rope_strip(e, cls, name)
        if t is not None:
            return t
        key = (e.get_id(), name, a[0] if a else None)
        if key in E.strip_memo:
            return mkstr(E.strip_memo[key][1])
        l, r, m = z3.String(E.name("ls")), z3.String(E.name("rs")), z3.String(E.name("strip"))
        if not E.merging and not E.quant:
            E.strip_memo[key] = (e, m)
        parts = []
        ANY = z3.Star(anyc)
        if name != "rstrip":
            A(z3.InRe(l, z3.Star(cls)))
            A(z3.Not(z3.InRe(m, z3.Concat(cls, ANY))))
            parts.append(l)
        parts.append(m)
        if name != "lstrip":
            A(z3.InRe(r, z3.Star(cls)))
            A(z3.Not(z3.InRe(m, z3.Concat(ANY, cls))))
            parts.append(r)
        A(e == z3.Concat(*parts))
        # the middle is empty only if everything is stripped; sides then merge
        return mkstr(m)
    if name in ("lower", "upper", "casefold", "title", "capitalize"):
        if z3.is_app_of(e, z3.Z3_OP_ITE) and all(z3.is_string_value(x) for x in e.children()[1:]):
            c, x, y = e.children()
            return mkstr(z3.If(c, *[sval(getattr(RX.L.pystr(t), name)()) for t in (x, y)]))
        if name in ("lower", "upper") and not E.quant:
            keep = [z3.Range(sval(chr(0)), sval("@")), z3.Range(sval("["), sval(chr(127)))] if name == "lower" else [z3.Range(sval(chr(0)), sval("`")), z3.Range(sval("{"), sval(chr(127)))]
            if RX.L.refuted(E.solver.assertions(), z3.Not(z3.InRe(e, z3.Star(z3.Union(*keep))))):
                return s
        E.imprecise = True
        f = z3.Function("str_" + name, z3.StringSort(), z3.StringSort())
        r = f(e)
        up, lo = z3.Range("A", "Z"), z3.Range("a", "z")
        if name in ("lower", "upper"):
            asc = z3.Range(z3.StringVal("\\u{0}"), z3.StringVal("\\u{7f}"))
            bad = up if name == "lower" else lo
            keep = z3.Union(*( [z3.Range("\\u{0}", "\\u{40}"), z3.Range("\\u{5b}", "\\u{7f}")] if name == "lower" else [z3.Range("\\u{0}", "\\u{60}"), z3.Range("\\u{7b}", "\\u{7f}")]))
            A(z3.Implies(z3.InRe(e, z3.Star(keep)), r == e))
            A(z3.Not(z3.InRe(r, z3.Concat(z3.Star(RX.allchar()), bad, z3.Star(RX.allchar())))))
            A(z3.Implies(z3.InRe(e, z3.Star(asc)), z3.And(z3.Length(r) == z3.Length(e), z3.InRe(r, z3.Star(keep)))))
            hexany = z3.Star(re_hex(False))
            if name == "lower":
                A(z3.InRe(e, hexany) == z3.InRe(r, hexany) if False else z3.Implies(z3.InRe(e, hexany), z3.InRe(r, z3.Star(re_hex()))))
        A((z3.Length(r) == 0) == (z3.Length(e) == 0))
        return mkstr(r)
    if name == "split":
        return str_split(E, s, a, k)
    if name in ("partition", "rpartition"):
        sep = strexpr(a[0])
        x, y = z3.String(E.name("pl")), z3.String(E.name("pr"))
        if E.branch(z3.Contains(e, sep)):
            A(e == z3.Concat(x, sep, y))
            if name == "partition":
                A(z3.Not(z3.Contains(x, sep))) if isinstance(a[0], str) and len(a[0]) == 1 else A(z3.IndexOf(e, sep, 0) == z3.Length(x))
            else:
                A(z3.Not(z3.Contains(y, sep))) if isinstance(a[0], str) and len(a[0]) == 1 else A(z3.LastIndexOf(e, sep) == z3.Length(x))
            return (mkstr(x), a[0], mkstr(y))
        return (s, "", "") if name == "partition" else ("", "", s)
    if name in ("find", "index"):
        start = intexpr(a[1]) if len(a) > 1 else z3.IntVal(0)
        r = z3.IndexOf(e, strexpr(a[0]), start)
        if name == "index" and E.branch(r < 0):
            raise ValueError("substring not found")
        return wrapnum(r)
    if name in ("rfind", "rindex"):
        r = z3.LastIndexOf(e, strexpr(a[0]))
        if name == "rindex" and E.branch(r < 0):
            raise ValueError("substring not found")
        return wrapnum(r)
    if name == "replace":
        old, new = strexpr(a[0]), strexpr(a[1])
        if E.branch(z3.Not(z3.Contains(e, old))):
            return s
        if len(a) > 2 and a[2] == 1:
            return mkstr(z3.Replace(e, old, new))
        E.imprecise = True
        r = z3.String(E.name("replaced"))
        if isinstance(a[0], str) and isinstance(a[1], str) and len(a[0]) == 1:
            if a[0] not in a[1]:
                A(z3.Not(z3.Contains(r, old)))
            if len(a[1]) == 1:
                A(z3.Length(r) == z3.Length(e))
        # one occurrence only: exactly the first replacement
        once = z3.Replace(e, old, new)
        one = z3.IndexOf(e, old, z3.IndexOf(e, old, 0) + z3.If(z3.Length(old) > 0, z3.Length(old), 1)) < 0
        A(z3.Implies(one, r == once))
        return mkstr(r)
    if name == "removeprefix":
        p = strexpr(a[0])
        return mkstr(z3.If(z3.PrefixOf(p, e), z3.SubString(e, z3.Length(p), z3.Length(e) - z3.Length(p)), e))
    if name == "removesuffix":
        p = strexpr(a[0])
        return mkstr(z3.If(z3.SuffixOf(p, e), z3.SubString(e, 0, z3.Length(e) - z3.Length(p)), e))
    if name == "isascii":
        return mkbool(z3.InRe(e, z3.Star(z3.Range(z3.StringVal("\\u{0}"), z3.StringVal("\\u{7f}")))))
    if name in ("isdigit", "isdecimal", "isnumeric"):
        if E.branch(z3.InRe(e, z3.Plus(z3.Range("0", "9")))):
            return True
        return E.fresh_bool(name) if E.branch(z3.InRe(e, z3.Plus(z3.Union(z3.Range("0", "9"), z3.Range("\\u{80}", "\\u{2ffff}"))))) else False
    if name == "isspace":
        return mkbool(z3.InRe(e, z3.Plus(_ws_re())))
    if name == "count":
        E.imprecise = True
        r = z3.Int(E.name("count"))
        sub = strexpr(a[0])
        A(r >= 0, (r == 0) == z3.Not(z3.Contains(e, sub)))
        return wrapnum(r)
    if name == "join":
        return str_join(E, s, a[0])
    if name == "zfill":
        w = a[0]
        L = z3.Length(e)
        pad = z3.StringVal("0" * w)
        neg = z3.Or(z3.PrefixOf("-", e), z3.PrefixOf("+", e))
        if E.branch(z3.And(neg, L < w)):
            return E.opaque_str("zfill")
        return mkstr(z3.If(L >= w, e, z3.Concat(z3.SubString(pad, 0, w - L), e)))
    if name in ("ljust", "rjust", "center"):
        w, ch = a[0], (a[1] if len(a) > 1 else " ")
        L = z3.Length(e)
        pad = sval(ch * w)
        p = z3.SubString(pad, 0, w - L)
        if name == "center":
            raise Unsupported("center")
        return mkstr(z3.If(L >= w, e, z3.Concat(p, e) if name == "rjust" else z3.Concat(e, p)))
    if name == "encode":
        return SEncoded(s)
    if name == "format":
        return E.opaque_str("format")
    if name in ("__len__",):
        return wrapnum(z3.Length(e))
    if name in ("isidentifier", "isalpha", "isalnum", "isupper", "islower", "isprintable", "istitle"):
        E.imprecise = True
        return E.fresh_bool(name)
    if name in ("translate", "expandtabs", "swapcase"):
        return E.opaque_str(name)
    if name == "rsplit" or name == "splitlines":
        raise Unsupported("str." + name)
    if name == "__str__":
        return s
    if name == "__eq__":
        return E.eq(s, a[0])
    if name == "__contains__":
        return E.contains(s, a[0])
    raise Unsupported("str." + name)


class SEncoded(Sym):
    """str.encode() of a symbolic string: only length and identity are known."""
    __slots__ = ("s",)
    pytype = bytes

    def __init__(self, s):
        self.s = s

    def __bool__(self):
        return bool(self.s)

    def sym_len(self):
        f = z3.Function("utf8len", z3.StringSort(), z3.IntSort())
        e = strexpr(self.s)
        S.E.solver.add(f(e) >= z3.Length(e), f(e) <= 4 * z3.Length(e))
        S.E.solver.add(z3.Implies(z3.InRe(e, z3.Star(z3.Range(z3.StringVal("\\u{0}"), z3.StringVal("\\u{7f}")))), f(e) == z3.Length(e)))
        return wrapnum(f(e))

    def sym_eq(self, o):
        if isinstance(o, SEncoded):
            return compare("==", self.s, o.s)
        if isinstance(o, bytes):
            try:
                return compare("==", self.s, o.decode())
            except UnicodeDecodeError:
                return False
        return False

    def m_decode(self, *a, **k):
        return self.s


def str_split(E, s, a, k):
    sep = a[0] if a else k.get("sep")
    mx = a[1] if len(a) > 1 else k.get("maxsplit", -1)
    if isinstance(s, SJoined) and sep == s.sep and (mx == -1):
        r = unjoin(E, s, sep)
        if r is not None:
            return r
    if sep is None:
        raise Unsupported("split on whitespace")
    e, z = strexpr(s), strexpr(sep)
    if isinstance(sep, str) and len(sep) == 1:
        r = RX.rope_split(e, sep, mx)
        if r is not None:
            return E.new(r)
    out = []
    rest = e
    limit = mx if mx >= 0 else (E.split_bound if E.split_bound is not None else None)
    if limit is None:
        # an arbitrary number of parts, none containing the separator
        n = z3.Int(E.name("nparts"))
        E.imprecise = True
        f = z3.Function(E.name("part"), z3.IntSort(), z3.StringSort())
        E.solver.add(n >= 1, (n == 1) == z3.Not(z3.Contains(e, z)), z3.Implies(n == 1, f(0) == e))
        E.solver.add(z3.Implies(n == 2, z3.Concat(f(0), z, f(1)) == e))
        E.solver.add(z3.Implies(n == 3, z3.Concat(f(0), z, f(1), z, f(2)) == e))
        E.solver.add(z3.Implies(n == 4, z3.Concat(f(0), z, f(1), z, f(2), z, f(3)) == e))
        E.solver.add(z3.Implies(n > 4, z3.PrefixOf(z3.Concat(f(0), z, f(1), z, f(2), z, f(3), z), e)))
        one = isinstance(sep, str) and len(sep) == 1

        def at(i):
            i = iexpr(i)
            if not E.quant:
                if one:
                    E.solver.add(z3.Not(z3.Contains(f(i), z)))
                E.solver.add(z3.Implies(z3.And(0 <= i, i < n), z3.Contains(e, f(i))))
            return mkstr(f(i))
        for j in range(4):
            if one:
                E.solver.add(z3.Not(z3.Contains(f(j), z)))
        return E.new(SList(SSeq(n, at, list, "split"), list))
    while limit != 0 and E.branch(z3.Contains(rest, z)):
        x, y = z3.String(E.name("sp")), z3.String(E.name("rest"))
        E.solver.add(rest == z3.Concat(x, z, y))
        if isinstance(sep, str) and len(sep) == 1:
            E.solver.add(z3.Not(z3.Contains(x, z)))
        else:
            E.solver.add(z3.IndexOf(rest, z, 0) == z3.Length(x))
        out.append(mkstr(x))
        rest = y
        limit -= 1
    if mx < 0 and limit == 0 and E.branch(z3.Contains(rest, z)):
        E.over_unroll("split")
    out.append(mkstr(rest))
    return E.new(out)


class SJoined(SStr):
    """sep.join(seq) for a symbolic sequence of separator-free strings."""
    __slots__ = ("sep", "seq")

    def __init__(self, e, sep, seq):
        self.e, self.sep, self.seq = e, sep, seq


def str_join(E, sep, it):
    if isinstance(it, SStr) and isinstance(sep, str) and sep == "":
        return it
    q = E.as_sseq(it) if isinstance(it, Sym) else None
    if q is not None and E.concrete_len(q) is None:
        e = z3.String(E.name("joined"))
        E.solver.add(z3.Implies(q.nexpr() == 0, e == z3.StringVal("")))
        E.probe_type(q, str)
        return SJoined(e, sep, q)
    parts = list(E.it(it))
    for p in parts:
        if not isinstance(p, (str, SStr)):
            raise TypeError("sequence item: expected str instance")
    out = []
    for i, p in enumerate(parts):
        if i:
            out.append(sep)
        out.append(p)
    return E.str_concat(out)


def percent(E, f, v):
    if isinstance(f, str):
        m = re.fullmatch(r"%(0?)(\d*)([xds])", f)
        if m and not isinstance(v, tuple):
            v = (v,)
        if m and isinstance(v, tuple) and len(v) == 1:
            if m[3] == "x":
                return E.format_(v[0], f"{m[1]}{m[2]}x")
            if m[3] == "s" and not m[2]:
                return E.to_str(v[0])
            if m[3] == "d" and not m[2]:
                return E.to_str(v[0])
        if isinstance(v, tuple) or isinstance(v, Sym):
            vs = list(v) if isinstance(v, tuple) else [v]
            parts = re.split(r"(%[sd])", f)
            if "%" not in "".join(p for p in parts if p not in ("%s", "%d")) and sum(p in ("%s", "%d") for p in parts) == len(vs):
                out = []
                for p in parts:
                    out.append(E.to_str(vs.pop(0)) if p in ("%s", "%d") else p)
                return E.str_concat(out)
    return E.opaque_str("percent")


def format_(E, v, spec):
    if isinstance(spec, Sym):
        raise Unsupported("symbolic format spec")
    if not isinstance(v, Sym):
        m = E.py_method(v, "__format__")
        if m is not None:
            return E.call(m, v, spec)
        if isinstance(v, BaseException) or not isinstance(v, PRIM):
            if not spec:
                return E.to_str(v)
        return format(v, spec)
    if isinstance(v, (SInt, SBool)):
        m = re.fullmatch(r"0(\d+)x", spec)
        if m:
            w = int(m[1])
            if E.t(compare("<", v, 0)):
                return E.opaque_str("neghex")
            return hexpad(E, num(v), w)
        if spec == "x":
            if E.t(compare("<", v, 0)):
                return E.opaque_str("neghex")
            return hexpad(E, num(v), 1)
        m = re.fullmatch(r"0(\d+)d?", spec)
        if m:
            return E.opaque_str("fmt")
        if spec in ("", "d"):
            return E.to_str(v)
    if isinstance(v, SStr) and spec in ("", "s"):
        return v
    return E.opaque_str("fmt")


# ------------------------------------------------------------------------------------ methods of symbolic values
def sym_method(E, obj, name, a, k):
    if isinstance(obj, SStr):
        return str_method(E, obj, name, a, k)
    if isinstance(obj, SIntOf):
        d = E.type_lookup(obj.pytype, name)
        if isinstance(d, types.FunctionType):
            return E.call(d, obj, *a, **k)
    d = E.map_override(obj, name)
    if d is not None:
        return E.call(d, obj, *a, **k)
    if isinstance(obj, SList):
        f = getattr(obj, "m_" + name, None)
        if f is not None:
            return f(*a, **k)
        return seq_method(E, obj, name, a, k)
    if isinstance(obj, SSeq):
        if name in ("append", "extend", "insert", "pop", "clear", "remove"):
            if obj.pytype is tuple:
                raise AttributeError(f"'tuple' object has no attribute '{name}'")
            raise Unsupported("mutation of an immutable symbolic sequence")
        return seq_method(E, obj, name, a, k)
    if isinstance(obj, PB.PBMsg):
        return E.call(obj.sym_getattr(name), *a, **k)
    if isinstance(obj, SMap):
        return map_method(E, obj, name, a, k)
    if isinstance(obj, ESet):
        return eset_method(E, obj, name, a, k)
    if isinstance(obj, (SInt, SBool)):
        if name == "to_bytes":
            return SInt(num(obj)).to_bytes(*a, **k)
        if name == "bit_length":
            raise Unsupported("bit_length")
        if name == "__class__":
            return obj.pytype
        if name in ("__add__", "__sub__", "__mul__", "__and__", "__or__"):
            return E.bin({"__add__": "+", "__sub__": "-", "__mul__": "*", "__and__": "&", "__or__": "|"}[name], obj, a[0])
        if name == "__str__":
            return E.to_str(obj)
        if name == "__eq__":
            return E.eq(obj, a[0])
    if isinstance(obj, SReal):
        if name == "is_integer":
            return mkbool(z3.IsInt(obj.e))
    if isinstance(obj, SBytesInt):
        if name == "hex":
            return hexpad(E, obj.e, 2 * obj.length) if obj.order == "big" else E.opaque_str("hex")
    f = getattr(obj, "m_" + name, None)
    if f is not None:
        return f(*a, **k)
    f = getattr(obj, "sym_call", None)
    if f is not None:
        return f(name, a, k)
    if isinstance(obj, SPoison):
        raise Unsupported("use of a value the loop invariant says nothing about")
    if not hasattr(obj.pytype, name):
        raise AttributeError(f"'{obj.pytype.__name__}' object has no attribute '{name}'")
    raise Unsupported(f"{obj.pytype.__name__}.{name}")


def seq_method(E, obj, name, a, k):
    q = E.as_sseq(obj)
    if name == "__len__":
        return q.length()
    if name == "__iter__":
        return SIter(q)
    if name == "__getitem__":
        return E.gi(obj, *a)
    if name == "__contains__":
        return E.contains(obj, *a)
    if name == "copy":
        return E.new(SList(q, list))
    raise Unsupported(f"{obj.pytype.__name__}.{name}")


def map_items(E, m):
    ks = m.keys_seq()
    q = SSeq(ks.n, lambda i: (ks.at(i), m.val(strexpr(ks.at(i)))), list, m.name and m.name + ".items")
    q.of_map = m
    return q


def map_method(E, m, name, a, k):
    ro = m.pytype is types.MappingProxyType
    if name in ("get",):
        e = m.key(a[0])
        d = a[1] if len(a) > 1 else k.get("default")
        if e is None:
            if E.unhashable(a[0]):
                raise TypeError("unhashable type")
            return d
        return m.val(e) if m.lookup(a[0]) else d
    if name == "__getitem__":
        return E.gi(m, a[0])
    if name == "__contains__":
        return E.contains(m, a[0])
    if name == "__len__":
        return wrapnum(m.nexpr())
    if name in ("keys", "__iter__"):
        return m.keys_seq()
    if name == "items":
        return map_items(E, m)
    if name == "values":
        ks = m.keys_seq()
        return SSeq(ks.n, lambda i: m.val(strexpr(ks.at(i))), list, m.name and m.name + ".values")
    if name == "copy":
        return E.new(m.fork(dict))
    if name == "move_to_end" or ro and name in ("pop", "update", "clear", "setdefault"):
        if ro:
            raise AttributeError(name)
        raise Unsupported("order of a symbolic map")
    if name == "pop":
        e = m.key(a[0])
        if e is not None and m.lookup(a[0]):
            v = m.val(e)
            m.remove(a[0])
            return v
        if len(a) > 1:
            return a[1]
        raise KeyError(a[0])
    if name == "update":
        for x in a:
            E.map_update(m, x)
        for kk, v in k.items():
            m.put(kk, v)
        return None
    if name == "setdefault":
        e = m.key(a[0])
        if m.lookup(a[0]):
            return m.val(e)
        d = a[1] if len(a) > 1 else None
        m.put(a[0], d)
        return d
    if name == "clear":
        return m.clear()
    if name == "__setitem__":
        return m.put(*a)
    if name == "__delitem__":
        return m.remove(*a)
    raise Unsupported(f"dict.{name} of a symbolic map")


def eset_method(E, s, name, a, k):
    if name == "add":
        E.touch(s)
        if not E.t(E.contains(s, a[0])):
            s.items = s.items + [a[0]]
        return None
    if name in ("discard", "remove"):
        for x in list(s.items):
            if E.t(E.eq(x, a[0])):
                E.touch(s)
                s.items = [y for y in s.items if y is not x]
                return None
        if name == "remove":
            raise KeyError(a[0])
        return None
    ops = {"union": "|", "intersection": "&", "difference": "-", "symmetric_difference": "^"}
    if name in ops:
        r = s
        for x in a:
            r = E.set_op(ops[name], r, E.make_set(E.it(x), False))
        return r
    if name == "update":
        for x in a:
            for v in E.it(x):
                eset_method(E, s, "add", (v,), {})
        return None
    if name in ("issubset", "issuperset"):
        return E.set_cmp("<=" if name == "issubset" else ">=", s, E.make_set(E.it(a[0]), False))
    if name == "isdisjoint":
        return negate(E.disj(E.contains(s, v) for v in E.it(a[0])))
    if name == "copy":
        return E.new(ESet(list(s.items), s.frozen))
    raise Unsupported("set." + name)


# ------------------------------------------------------------------------------------ methods of native containers
_LISTM = {"append", "insert", "extend", "pop", "remove", "clear", "sort", "reverse", "index", "count", "copy", "__iadd__",
          "__setitem__", "__getitem__", "__delitem__", "__contains__", "__iter__", "__len__"}
_DEQM = _LISTM | {"appendleft", "popleft", "extendleft", "rotate"}
_DICTM = {"get", "pop", "setdefault", "update", "keys", "values", "items", "clear", "popitem", "copy", "move_to_end", "__getitem__",
          "__setitem__", "__delitem__", "__contains__"}
_SETM = {"add", "discard", "remove", "update", "clear", "pop", "union", "intersection", "difference", "issubset", "issuperset",
         "intersection_update", "difference_update", "symmetric_difference", "isdisjoint", "copy"}


def container_method(E, obj, name, a, k):
    t = type(obj)
    if obj is os.environ:
        return env_method(E, name, a)
    if isinstance(obj, str):
        if has_sym(a) or has_sym(tuple(k.values())) or name == "join" or (name == "format" and (a or k)):
            if name == "join":
                it = a[0]
                if not isinstance(it, Sym):
                    it = list(E.it(it))
                    if all(type(x) is str for x in it):
                        return str.join(obj, it)
                return str_join(E, obj, it)
            if name == "format":
                if has_sym(a) or has_sym(tuple(k.values())):
                    return str_format(E, obj, a, k)
                return MISSING
            return str_method(E, obj, name, a, k)
        return MISSING
    if isinstance(obj, re.Pattern):
        return re_method(E, obj, name, a, k)
    if isinstance(obj, super):
        return MISSING
    if not isinstance(obj, (list, dict, set, collections.deque, frozenset, types.MappingProxyType)):
        return MISSING
    f = E.type_lookup(t, name)
    if isinstance(f, (types.FunctionType, property)):
        return MISSING
    return native_container(E, obj, name, a, k)


def str_format(E, f, a, k):
    parts = []
    import string
    auto = 0
    for lit, fld, spec, conv in string.Formatter().parse(f):
        parts.append(lit)
        if fld is None:
            continue
        if fld == "":
            v = a[auto]
            auto += 1
        elif fld.isdigit():
            v = a[int(fld)]
        elif fld.isidentifier():
            v = k[fld]
        else:
            return E.opaque_str("format")
        parts.append(E.fmt(v, ord(conv) if conv else -1, spec or ""))
    return E.fstr(*parts)


def native_container(E, obj, name, a, k):
    if isinstance(obj, list) and name in _LISTM or isinstance(obj, collections.deque) and name in _DEQM:
        if name in ("__getitem__",):
            return E.gi(obj, *a)
        if name == "__setitem__":
            E.touch(obj)
            list.__setitem__(obj, *a)
            return None
        if name == "__delitem__":
            E.touch(obj)
            del obj[a[0]]
            return None
        if name == "__contains__":
            return E.contains(obj, a[0])
        if name in ("__len__", "__iter__"):
            return MISSING
        if name in ("index", "count", "remove"):
            if has_sym(a) or has_sym(obj) or E.py_method(a[0], "__eq__"):
                n = 0
                for i, x in enumerate(list(obj)):
                    if x is a[0] or E.t(E.eq(x, a[0])):
                        if name == "index":
                            return i
                        if name == "remove":
                            E.touch(obj)
                            del obj[i]
                            return None
                        n += 1
                if name == "count":
                    return n
                raise ValueError("not in list")
            if name == "remove":
                E.touch(obj)
            return getattr(obj, name)(*a)
        if name == "copy":
            return E.new(obj.copy())
        E.touch(obj)
        if name in ("extend", "extendleft", "__iadd__"):
            src = a[0]
            if id(obj) in E.pb_lists:
                getattr(obj, "extend" if name == "__iadd__" else name)([PB.added(obj, x) for x in E.it(src)])
                return obj if name == "__iadd__" else None
            getattr(obj, "extend" if name == "__iadd__" else name)(list(E.it(src)))
            return obj if name == "__iadd__" else None
        if name == "sort":
            r = m_sorted(E, list(obj), **k)
            obj[:] = r
            return None
        if name == "pop" and a and isinstance(a[0], Sym):
            a = (E.concretize(a[0]),)
        if id(obj) in E.pb_lists and name == "append":
            a = (PB.added(obj, a[0]),)
        base = collections.deque if isinstance(obj, collections.deque) else list
        return getattr(base, name)(obj, *a, **k)
    if isinstance(obj, (dict, types.MappingProxyType)) and name in _DICTM:
        symk = (a and sym_key(a[0]) and name in ("get", "pop", "setdefault", "__getitem__", "__setitem__", "__delitem__", "__contains__", "move_to_end"))
        if name == "__getitem__":
            kk = E.dict_find(obj, a[0])
            if kk is MISSING:
                raise KeyError(a[0])
            return E._dget(obj, kk)
        if name == "__setitem__":
            kk = E.dict_find(obj, a[0])
            E.touch(obj)
            E._dset(obj, a[0] if kk is MISSING else kk, a[1])
            return None
        if name == "__delitem__":
            kk = E.dict_find(obj, a[0])
            if kk is MISSING:
                raise KeyError(a[0])
            E.touch(obj)
            E._ddel(obj, kk)
            return None
        if name == "__contains__":
            return E.dict_find(obj, a[0]) is not MISSING
        if name == "get":
            kk = E.dict_find(obj, a[0])
            if kk is MISSING:
                return a[1] if len(a) > 1 else k.get("default")
            return E._dget(obj, kk)
        if name == "pop":
            kk = E.dict_find(obj, a[0])
            if kk is MISSING:
                if len(a) > 1:
                    return a[1]
                raise KeyError(a[0])
            E.touch(obj)
            v = E._dget(obj, kk)
            E._ddel(obj, kk)
            return v
        if name == "setdefault":
            kk = E.dict_find(obj, a[0])
            if kk is MISSING:
                d = a[1] if len(a) > 1 else None
                E.si(obj, a[0], d)
                return d
            return E._dget(obj, kk)
        if name == "update":
            for x in a:
                E.dict_update(obj, x)
            for kk, v in k.items():
                E.si(obj, kk, v)
            return None
        if name == "copy":
            if dict_sym(obj):
                own = type(obj).copy is not dict.copy if isinstance(obj, dict) else False
                r = E.new(type(obj)() if own else {})  # dict.copy of a subclass gives a plain dict
                for kk in list(obj):
                    E._dset(r, kk, E._dget(obj, kk))
                return r
            return E.new(obj.copy())
        if name in ("keys", "values", "items"):
            return getattr(obj, name)()
        E.touch(obj)
        E_ok, E.hash_ok = E.hash_ok, True
        try:
            if name == "move_to_end" and symk:
                kk = E.dict_find(obj, a[0])
                if kk is MISSING:
                    raise KeyError(a[0])
                return obj.move_to_end(kk, **k)
            base = collections.OrderedDict if isinstance(obj, collections.OrderedDict) else dict
            return getattr(base, name)(obj, *a, **k)
        finally:
            E.hash_ok = E_ok
    if isinstance(obj, (set, frozenset)) and name in _SETM:
        if name == "add":
            if not E.t(E.contains(obj, a[0])):
                E.touch(obj)
                ok, E.hash_ok = E.hash_ok, True
                try:
                    set.add(obj, a[0])
                finally:
                    E.hash_ok = ok
            return None
        if name in ("discard", "remove"):
            for x in list(obj):
                if x is a[0] or E.t(E.eq(x, a[0])):
                    E.touch(obj)
                    ok, E.hash_ok = E.hash_ok, True
                    try:
                        set.discard(obj, x)
                    finally:
                        E.hash_ok = ok
                    return None
            if name == "remove":
                raise KeyError(a[0])
            return None
        if name == "update":
            for x in a:
                for v in E.it(x):
                    native_container(E, obj, "add", (v,), {})
            return None
        if has_sym(a) or has_sym(tuple(obj)):
            return eset_method(E, ESet(list(obj), isinstance(obj, frozenset)), name, a, k)
        if name in ("clear", "pop", "intersection_update", "difference_update"):
            E.touch(obj)
        r = getattr(obj, name)(*[E.it(x) for x in a])
        return E.new(r) if isinstance(r, set) else r
    return MISSING


def dict_sym(d):
    return any(sym_key(k) for k in d)


@model(object.__setattr__)
def m_osetattr(E, o, n, v):
    E.touch(o, "obj", n)
    object.__setattr__(o, n, v)


def native_slot(E, f, a, k):
    """Slot wrappers (dict.__setitem__, super().__setattr__, ...)."""
    n = f.__name__
    if type(f) is types.MethodWrapperType:
        obj, rest = f.__self__, a
    else:
        obj, rest = a[0], a[1:]
    if n == "__setattr__":
        if isinstance(obj, type):
            return E.sa(obj, *rest)
        E.touch(obj, "obj", rest[0])
        object.__setattr__(obj, *rest)
        return None
    if n in ("__getattribute__",):
        return object.__getattribute__(obj, *rest)
    if n == "__delattr__":
        E.touch(obj, "obj", rest[0])
        return object.__delattr__(obj, *rest)
    if isinstance(obj, (list, dict, set, collections.deque)) and n in ("__setitem__", "__getitem__", "__delitem__", "__contains__"):
        r = native_container(E, obj, n, rest, k)
        if r is not MISSING:
            return r
    if isinstance(obj, tuple) and n == "__getitem__":
        return E.gi(tuple(tuple.__iter__(obj)), *rest)
    if n == "__eq__" and isinstance(obj, tuple):
        o = rest[0]
        return E.eq(tuple(tuple.__iter__(obj)), tuple(tuple.__iter__(o)) if isinstance(o, tuple) else o)
    if n == "__init__":
        if isinstance(obj, dict):
            if rest:
                E.dict_update(obj, rest[0])
            for kk, v in k.items():
                E.si(obj, kk, v)
            return None
        if isinstance(obj, list):
            if rest:
                obj.extend(E.it(rest[0]))
            return None
        if isinstance(obj, collections.deque):
            if not has_sym(rest):
                collections.deque.__init__(obj, *rest, **k)
                return None
        if isinstance(obj, BaseException) or not has_sym(rest):
            return f(*a, **k)
    return MISSING


def model_for(E, f):
    try:
        if E.stub_models:
            s = E.stub_models.get(id(f))
            if s is not None:
                return s[1]
    except AttributeError:
        pass
    m = MODELS.get(id(f))
    if m is not None:
        return m
    t = type(f)
    if t is types.MethodWrapperType or t is types.WrapperDescriptorType:
        def slot(E, *a, **k):
            r = native_slot(E, f, a, k)
            if r is not MISSING:
                return r
            if not E.native_ok(f, a, k):
                raise Unsupported(f"{f.__name__} with symbolic arguments")
            return f(*a, **k)
        return slot
    if t is types.MethodDescriptorType:
        def desc(E, obj, *a, **k):
            if isinstance(obj, Sym):
                return sym_method(E, obj, f.__name__, a, k)
            r = native_container(E, obj, f.__name__, a, k) if isinstance(obj, (list, dict, set, collections.deque)) else MISSING
            if r is MISSING and isinstance(obj, str):
                r = container_method(E, obj, f.__name__, a, k)
            if r is not MISSING:
                return r
            return E.native(f, (obj, *a), k)
        return desc
    return None


_CTX_METHODS = {"set", "get", "reset", "run", "copy"}


def native_ok(E, f, a, k):
    if id(f) in SAFE_NATIVE:
        return True
    if isinstance(f, type) and issubclass(f, (BaseException, contextvars.ContextVar)):
        return True
    if isinstance(f, ENGINE_CLASSES):
        return True
    s = getattr(f, "__self__", None)
    if isinstance(s, (contextvars.ContextVar, contextvars.Token) + ENGINE_CLASSES) or isinstance(s, RX.SMatch):
        return True
    if isinstance(s, (types.GeneratorType,)) and f.__name__ in ("send", "throw", "close", "__next__"):
        return True
    if isinstance(f, types.FunctionType) and f.__qualname__.split(".")[0] in ("ELock", "ECondition", "EEvent", "EThread", "EFuture", "EExecutor", "SMatch", "PBMsg"):
        return True
    if isinstance(f, types.FunctionType) and getattr(f, "__module__", "") in ("pyvc.models", "pyvc.lib", "pyvc.regex"):
        return True
    if isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith("<"):
        return True  # generated namedtuple / dataclass methods only move references
    if s is not None and isinstance(s, type) and f.__name__ in ("_make", "__new__"):
        return True
    if f in (tuple.__new__, object.__new__):
        return True
    if isinstance(f, types.BuiltinFunctionType) and f.__name__ == "__new__":
        return True
    if isinstance(s, BaseException):
        return True
    return not (any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()))


def install(Engine):
    Engine.container_method = container_method
    Engine.sym_method = sym_method
    Engine.model_for = model_for
    Engine.percent = percent
    Engine.format_ = format_
    Engine.native_ok = native_ok

    def clock_ns(E):
        if E.clock_fn is not None:
            return E.call(E.clock_fn)
        v = SInt(z3.Int(E.name("now_ns")))
        E.solver.add(v.e >= 0)
        if E.last_now is not None and E.monotone_clock:
            E.solver.add(v.e >= E.last_now)
        E.last_now = v.e
        return v

    def hash_fn(E, v):
        """A hash term that is equal for equal tuples of primitives."""
        def enc(x):
            if isinstance(x, (tuple, ESet)):
                items = list(x) if isinstance(x, tuple) else x.items
                if isinstance(x, ESet):
                    return z3.Sum([enc(i) for i in items]) if items else z3.IntVal(3)
                r = z3.IntVal(7)
                for i in items:
                    r = z3.Function("hash_mix", z3.IntSort(), z3.IntSort(), z3.IntSort())(r, enc(i))
                return r
            if isinstance(x, (str, SStr)):
                return z3.Function("hash_str", z3.StringSort(), z3.IntSort())(strexpr(x))
            if is_num(x):
                e = num(x)
                return z3.Function("hash_num", z3.RealSort(), z3.IntSort())(z3.ToReal(e) if e.is_int() else e)
            if isinstance(x, Sym):
                raise Unsupported("hash of a symbolic container")
            m = E.py_method(x, "__hash__")
            r = E.call(m, x) if m is not None else E.call(hash, x)
            return num(r)
        return enc(v)

    def probe_type(E, q, t):
        pass

    Engine.clock_ns = clock_ns
    Engine.hash_fn = hash_fn
    Engine.probe_type = probe_type
    begin = Engine._begin

    def _begin(self):
        begin(self)
        self.clock_fn = None
        self.last_now = None
        self.monotone_clock = False
        self.sleeps = []
        self.wait_fn = None
        self.futures_wait = None
        self.lazy_tasks = False
        self.split_hooks = {}
        self.hex_widths = {16, 32, 2}
        self.stub_models = {}
        self.split_bound = getattr(self, "cfg_split_bound", None)

    Engine._begin = _begin
