"""Symbolic mutable containers: unbounded lists/deques and string-keyed maps."""
from __future__ import annotations

import collections

import z3

from . import sym as S
from .sym import SBool, SInt, SSeq, SStr, Sym, Unsupported, intexpr, mkbool, mkstr, num, strexpr, wrapnum


def iexpr(i):
    return i if z3.is_expr(i) else z3.IntVal(i)


def seq_of(items, pytype=list):
    """SSeq of a concrete Python sequence."""
    items = list(items)

    def at(i):
        i = z3.simplify(iexpr(i))
        if z3.is_int_value(i):
            return items[i.as_long()]
        def go(k):
            if k == len(items) - 1:
                return items[k]
            return S.E.ite(i == k, lambda: items[k], lambda: go(k + 1))
        return go(0)

    return SSeq(len(items), at, pytype)


def seq_concat(a, b, pytype=None):
    na = a.nexpr()
    n = z3.simplify(na + b.nexpr())

    def at(i):
        i = iexpr(i)
        return S.E.ite(i < na, lambda: a.at(i), lambda: b.at(z3.simplify(i - na)))

    return SSeq(n, at, pytype or a.pytype)


def seq_slice(s, lo, hi, pytype=None):
    """Elements lo..hi-1 (0 <= lo <= hi <= n assumed)."""
    lo, hi = iexpr(lo), iexpr(hi)
    return SSeq(z3.simplify(hi - lo), lambda i: s.at(z3.simplify(iexpr(i) + lo)), pytype or s.pytype)


def seq_set(s, k, v):
    k = iexpr(k)
    return SSeq(s.n, lambda i: S.E.ite(iexpr(i) == k, lambda: v, lambda: s.at(i)), s.pytype, s.name)


def seq_reversed(s):
    n = s.nexpr()
    return SSeq(s.n, lambda i: s.at(z3.simplify(n - 1 - iexpr(i))), s.pytype)


class SList(Sym):
    """Mutable list/deque with symbolic length."""
    __slots__ = ("seq", "pytype", "maxlen", "make", "name", "__weakref__")

    def __init__(self, seq, pytype=list, maxlen=None, make=None, name=None):
        self.seq, self.pytype, self.maxlen, self.make, self.name = seq, pytype, maxlen, make, name

    def __bool__(self):
        return bool(self.seq)

    def __len__(self):
        return len(self.seq)

    def havoc(self, tag="h"):
        """Arbitrary contents (make(i, tag) builds an arbitrary element)."""
        if self.make is None:
            raise Unsupported("havoc of a list without element maker")
        n = z3.Int(S.E.name("len"))
        S.E.solver.add(n >= 0)
        tag = S.E.name(tag)
        make = self.make
        self.seq = SSeq(n, lambda i: make(i, tag), self.pytype, self.name)

    def mut(self):
        S.E.touch(self)

    # list / deque operations
    def m_append(self, v):
        self.mut()
        if self.maxlen is not None:
            ml = intexpr(self.maxlen)
            if S.E.branch(ml == 0):
                return
            if S.E.branch(self.seq.nexpr() >= ml):
                self.seq = seq_slice(self.seq, 1, self.seq.nexpr())
        self.seq = seq_concat(self.seq, seq_of([v]), self.pytype)

    def m_appendleft(self, v):
        self.mut()
        if self.maxlen is not None:
            ml = intexpr(self.maxlen)
            if S.E.branch(ml == 0):
                return
            if S.E.branch(self.seq.nexpr() >= ml):
                self.seq = seq_slice(self.seq, 0, z3.simplify(self.seq.nexpr() - 1))
        self.seq = seq_concat(seq_of([v]), self.seq, self.pytype)

    def m_extend(self, it):
        self.mut()
        q = S.E.as_sseq(it)
        if q is None:
            for v in S.E.it(it):
                self.m_append(v)
            return
        self.seq = seq_concat(self.seq, q, self.pytype)
        if self.maxlen is not None:
            n, ml = self.seq.nexpr(), intexpr(self.maxlen)
            self.seq = seq_slice(self.seq, z3.If(n > ml, n - ml, 0), n)

    def m_pop(self, i=-1):
        self.mut()
        n = self.seq.nexpr()
        if S.E.branch(n == 0):
            raise IndexError("pop from empty list")
        if i == -1:
            v = self.seq.at(z3.simplify(n - 1))
            self.seq = seq_slice(self.seq, 0, z3.simplify(n - 1))
            return v
        if i == 0:
            return self.m_popleft()
        raise Unsupported("pop at an index")

    def m_popleft(self):
        self.mut()
        n = self.seq.nexpr()
        if S.E.branch(n == 0):
            raise IndexError("pop from an empty deque")
        v = self.seq.at(z3.IntVal(0))
        self.seq = seq_slice(self.seq, 1, n)
        return v

    def m_clear(self):
        self.mut()
        self.seq = seq_of([], self.pytype)

    def m_copy(self):
        return S.E.new(SList(self.seq, self.pytype, self.maxlen, self.make))

    def m_setitem(self, i, v):
        self.mut()
        if isinstance(i, slice):
            lo, hi = S.E.slice_bounds(i, self.seq.nexpr())
            q = S.E.as_sseq(v, True)
            if q is None:
                raise Unsupported("slice assignment of this kind")
            n = self.seq.nexpr()
            self.seq = seq_concat(seq_concat(seq_slice(self.seq, 0, lo), q), seq_slice(self.seq, hi, n), self.pytype)
            return
        k = S.E.norm_index(i, self.seq.nexpr())
        self.seq = seq_set(self.seq, k, v)

    def m_delitem(self, i):
        self.mut()
        n = self.seq.nexpr()
        k = S.E.norm_index(i, n)
        self.seq = seq_concat(seq_slice(self.seq, 0, k), seq_slice(self.seq, k + 1, n), self.pytype)


class SMap(Sym):
    """Mutable string-keyed map: membership and value functions, and a size."""
    __slots__ = ("has", "val", "n", "pytype", "name", "enum_", "pure_val", "__weakref__")

    def __init__(self, has, val, n, pytype=dict, name=None):
        self.has, self.val, self.n, self.pytype, self.name = has, val, n, pytype, name
        self.enum_ = None

    def nexpr(self):
        return self.n if z3.is_expr(self.n) else z3.IntVal(self.n)

    def __bool__(self):
        return S.E.branch(self.nexpr() > 0)

    def __len__(self):
        raise Unsupported("len of a symbolic map in native code")

    def fork(self, pytype=None):
        m = SMap(self.has, self.val, self.n, pytype or self.pytype, self.name)
        m.enum_ = self.enum_
        return m

    def key(self, k):
        if isinstance(k, (str, SStr)):
            return strexpr(k)
        return None

    def lookup(self, k):
        """(present?, value thunk) with forking"""
        e = self.key(k)
        if e is None:
            return False
        r = S.E.branch(self.has(e))
        if r:
            S.E.solver.add(self.nexpr() > 0)
        return r

    def put(self, k, v):
        S.E.touch(self)
        e = self.key(k)
        if e is None:
            raise Unsupported("non-string key in a symbolic map")
        has, val = self.has, self.val
        present = has(e)
        S.E.solver.add(z3.Implies(present, self.nexpr() > 0))
        self.n = z3.simplify(self.nexpr() + z3.If(present, 0, 1))
        self.has = lambda x: z3.simplify(z3.Or(x == e, has(x)))
        self.val = lambda x: S.E.ite(x == e, lambda: v, lambda: val(x))
        self.enum_ = None

    def remove(self, k):
        S.E.touch(self)
        e = self.key(k)
        if e is None or not self.lookup(k):
            raise KeyError(k)
        has = self.has
        self.n = z3.simplify(self.nexpr() - 1)
        self.has = lambda x: z3.simplify(z3.And(x != e, has(x)))
        self.enum_ = None

    def clear(self):
        S.E.touch(self)
        self.has = lambda x: z3.BoolVal(False)
        self.n = 0
        self.enum_ = None

    def update(self, o):
        """o: SMap"""
        S.E.touch(self)
        h1, v1, n1 = self.has, self.val, self.nexpr()
        h2, v2, n2 = o.has, o.val, o.nexpr()
        n = z3.Int(S.E.name("mapsize"))
        S.E.solver.add(n >= n1, n >= n2, n <= n1 + n2)
        self.has = lambda x: z3.simplify(z3.Or(h2(x), h1(x)))
        self.val = lambda x: S.E.ite(h2(x), lambda: v2(x), lambda: v1(x))
        self.n = n
        self.enum_ = None

    def keys_seq(self):
        """An arbitrary-but-fixed enumeration of the keys."""
        if self.enum_ is None:
            f = z3.Function(S.E.name("keyat"), z3.IntSort(), z3.StringSort())
            idx = z3.Function(S.E.name("keyidx"), z3.StringSort(), z3.IntSort())
            self.enum_ = (f, idx)
        f, idx = self.enum_
        has, n = self.has, self.nexpr()

        def at(i):
            i = iexpr(i)
            k = f(i)
            if not S.E.quant:
                S.E.solver.add(z3.Implies(z3.And(0 <= i, i < n), z3.And(has(k), idx(k) == i)))
            return mkstr(k)

        q = SSeq(n, at, list, (self.name + ".keys") if self.name else None)
        q.keys_of = self.fork()
        return q

    def index_of(self, e):
        """Position of a present key in the enumeration (with its defining facts)."""
        if self.enum_ is None:
            self.keys_seq()
        f, idx = self.enum_
        S.E.solver.add(z3.Implies(self.has(e), z3.And(0 <= idx(e), idx(e) < self.nexpr(), f(idx(e)) == e)))
        return idx(e)


class ESet(Sym):
    """A set with finitely many, possibly symbolic, pairwise different elements."""
    __slots__ = ("items", "frozen", "__weakref__")

    def __init__(self, items, frozen):
        self.items, self.frozen = items, frozen

    @property
    def pytype(self):
        return frozenset if self.frozen else set

    def __bool__(self):
        return bool(self.items)

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)


class SODict(Sym):
    """Mutable insertion-ordered string-keyed dict of arbitrary size: key and value by position, position and membership by key."""
    __slots__ = ("n", "keyat", "valat", "idx", "has", "pytype", "name", "__weakref__")

    def __init__(self, n, keyat, valat, idx, has, pytype=dict, name=None):
        self.n, self.keyat, self.valat, self.idx, self.has, self.pytype, self.name = n, keyat, valat, idx, has, pytype, name

    def nexpr(self):
        return iexpr(self.n)

    def __bool__(self):
        return S.E.branch(self.nexpr() > 0)

    def fork(self, pytype=None):
        return SODict(self.n, self.keyat, self.valat, self.idx, self.has, pytype or self.pytype, self.name)

    def key(self, k):
        if isinstance(k, (str, SStr)):
            return strexpr(k)
        if isinstance(k, Sym) or k is None or isinstance(k, (int, float, bytes, tuple)):
            return None
        if S.E.unhashable(k):
            raise TypeError(f"unhashable type: '{type(k).__name__}'")
        return None

    def present(self, k):
        e = self.key(k)
        if e is None:
            return None
        return e if S.E.branch(self.has(e)) else None

    def sym_len(self):
        return wrapnum(self.nexpr())

    def sym_contains(self, k):
        e = self.key(k)
        return False if e is None else mkbool(self.has(e))

    def sym_getitem(self, k):
        e = self.present(k)
        if e is None:
            raise KeyError(k)
        return self.valat(self.idx(e))

    def remove_at(self, j):
        S.E.touch(self)
        j = iexpr(j)
        ka, va, ix, hs, gone = self.keyat, self.valat, self.idx, self.has, self.keyat(j)
        self.n = z3.simplify(self.nexpr() - 1)
        self.keyat = lambda i: z3.If(iexpr(i) < j, ka(iexpr(i)), ka(iexpr(i) + 1))
        self.valat = lambda i: S.E.ite(iexpr(i) < j, lambda: va(iexpr(i)), lambda: va(z3.simplify(iexpr(i) + 1)))
        self.idx = lambda x: z3.If(ix(x) > j, ix(x) - 1, ix(x))
        self.has = lambda x: z3.And(x != gone, hs(x))

    def sym_delitem(self, k):
        e = self.present(k)
        if e is None:
            raise KeyError(k)
        self.remove_at(self.idx(e))

    def sym_setitem(self, k, v):
        e = self.key(k)
        if e is None:
            raise Unsupported("non-string key in a symbolic ordered dict")
        S.E.touch(self)
        ka, va, ix, hs, n = self.keyat, self.valat, self.idx, self.has, self.nexpr()
        if S.E.branch(hs(e)):
            j = ix(e)
            self.valat = lambda i: S.E.ite(iexpr(i) == j, lambda: v, lambda: va(iexpr(i)))
            return
        self.n = z3.simplify(n + 1)
        self.keyat = lambda i: z3.If(iexpr(i) == n, e, ka(iexpr(i)))
        self.valat = lambda i: S.E.ite(iexpr(i) == n, lambda: v, lambda: va(iexpr(i)))
        self.idx = lambda x: z3.If(x == e, n, ix(x))
        self.has = lambda x: z3.Or(x == e, hs(x))

    def keys_seq(self):
        return SSeq(self.n, lambda i: mkstr(self.keyat(iexpr(i))), list, None)

    def items_seq(self):
        ka, va = self.keyat, self.valat
        return SSeq(self.n, lambda i: (mkstr(ka(iexpr(i))), va(iexpr(i))), list, None)

    def m_keys(self):
        return self.keys_seq()

    def m_values(self):
        va = self.valat
        return SSeq(self.n, lambda i: va(iexpr(i)), list, None)

    def m_items(self):
        return self.items_seq()

    def m_copy(self):
        own = issubclass(self.pytype, collections.OrderedDict) or not issubclass(self.pytype, dict)
        return S.E.new(self.fork(None if own else dict))

    def m_get(self, k, d=None):
        e = self.present(k)
        return d if e is None else self.valat(self.idx(e))

    def m_pop(self, k, *d):
        e = self.present(k)
        if e is None:
            if d:
                return d[0]
            raise KeyError(k)
        j = self.idx(e)
        v = self.valat(j)
        self.remove_at(j)
        return v

    def m_popitem(self, last=True):
        if not S.E.branch(self.nexpr() > 0):
            raise KeyError("dictionary is empty")
        j = z3.simplify(self.nexpr() - 1) if last else z3.IntVal(0)
        r = (mkstr(self.keyat(j)), self.valat(j))
        self.remove_at(j)
        return r

    def m_move_to_end(self, k, last=True):
        if not last:
            raise Unsupported("move_to_end(last=False)")
        v = self.m_pop(k)
        self.sym_setitem(k, v)

    def m_clear(self):
        S.E.touch(self)
        self.n = 0
        self.has = lambda x: z3.BoolVal(False)

    def m_setdefault(self, k, d=None):
        e = self.present(k)
        if e is not None:
            return self.valat(self.idx(e))
        self.sym_setitem(k, d)
        return d

    def m_update(self, *a, **k):
        for kk, v in S.E.items_of(a[0]) if a else ():
            self.sym_setitem(kk, v)
        for kk, v in k.items():
            self.sym_setitem(kk, v)
