"""Contract language.  The same contract runs symbolically (proof) and natively (replay, cross-check, search)."""
from __future__ import annotations

import builtins
import collections
import os
import random
import re
import re._constants as C
import re._parser as P
import sys
import time
import types

import z3

from . import sym as S
from .containers import SList, SMap, iexpr, seq_of
from .sym import SBool, SInt, SReal, SSeq, SStr, Sym, Unsupported, intexpr, mkbool, mkstr, num, strexpr, sval, wrapnum

REGISTRY: list = []


class Violation(BaseException):
    def __init__(self, name, detail=""):
        self.name, self.detail = name, detail
        super().__init__(f"{name} {detail}")


class Discard(BaseException):
    pass


class ContractMismatch(BaseException):
    """The contract refers to something the code no longer has; it decides nothing."""


class Harness:
    def __init__(self, fn, **kw):
        self.fn = fn
        self.name = fn.__name__
        self.opts = kw


def contract(**kw):
    def deco(fn):
        REGISTRY.append(Harness(fn, **kw))
        return fn
    if len(kw) == 1 and callable(next(iter(kw.values()))):
        raise TypeError("use @contract()")
    return deco


class ConcMode:
    def __init__(self, source, rng=None):
        self.source = source
        self.names: dict = {}
        self.log: dict = {}
        self.undo: list = []
        self.checks = 0
        self.checked_names: dict = {}

    def draw_name(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if k == 0 else f"{name}#{k}"

    def draw(self, name, kind, gen):
        v = self.source.get(name, kind, gen)
        self.log[name] = v
        return v


class RandomSource:
    def __init__(self, seed):
        self.rng = random.Random(seed)

    def get(self, name, kind, gen):
        return gen(self.rng)


class LogSource:
    def __init__(self, log, rng=None):
        self.vals = dict(log)
        self.rng = rng or random.Random(0)

    def get(self, name, kind, gen):
        if name in self.vals:
            return self.vals[name]
        return gen(self.rng)


class ModelSource:
    """Values of a counter-model; anything it does not fix takes a simple default."""

    def __init__(self, model, draws, jitter=None):
        self.model = model
        self.terms = {}
        for name, kind, term in draws:
            self.terms[name] = (kind, term)
        self.rng = random.Random(jitter or 0)

    def get(self, name, kind, gen):
        if kind == "fn":
            fname, i = gen.fn_key
            if fname in self.terms:
                f = self.terms[fname][1]
                arg = z3.IntVal(i) if isinstance(i, int) else sval(i)
                return pyval(self.model.eval(f(arg), model_completion=True), gen.sort)
            return gen(self.rng)
        if name in self.terms:
            k, t = self.terms[name]
            if k == "const":
                return t
            return pyval(self.model.eval(t, model_completion=True), k)
        return gen(self.rng)


def pyval(v, kind):
    if kind == "int":
        return v.as_long()
    if kind == "bool":
        return z3.is_true(v)
    if kind == "str":
        return S.zstr(v)
    if kind == "real":
        if z3.is_int_value(v):
            return float(v.as_long())
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        return float(v.approx(20).as_fraction())
    raise ValueError(kind)


CONC: ConcMode | None = None  # set while a contract runs natively


def symbolic():
    return CONC is None


def big(n, small=300):
    """A bound that only native runs need to be small."""
    return n if CONC is None else min(n, small)


def _E():
    return S.E


# ------------------------------------------------------------------------------------ draws
def _gen_int(lo, hi):
    def g(r):
        l = lo if lo is not None else -(2 ** 70)
        h = hi if hi is not None else 2 ** 70
        c = r.randrange(8)
        if c == 0:
            return l if lo is not None else 0
        if c == 1:
            return h if hi is not None else 1
        if c == 2:
            return min(max(r.choice([0, 1, 2, -1, 3, 5, 10, 127, 128, 255, 256, 4095]), l), h)
        if c == 3:
            return min(max(l + r.randrange(0, 6), l), h)
        if c == 4:
            return min(max(h - r.randrange(0, 6), l), h)
        if c == 5:
            return r.randint(l, h)
        if c == 6:
            k = r.randrange(1, 130)
            return min(max(r.getrandbits(k), l), h)
        return min(max(r.randrange(0, 12), l), h)
    return g


def sym_int(name, lo=None, hi=None):
    if CONC is not None:
        return CONC.draw(CONC.draw_name(name), "int", _gen_int(lo, hi))
    E = _E()
    name = E.draw_name(name)
    v = z3.Int(name)
    if lo is not None:
        E.solver.add(v >= lo)
    if hi is not None:
        E.solver.add(v <= hi)
    E.draws.append((name, "int", v))
    return SInt(v)


def sym_bool(name):
    if CONC is not None:
        return CONC.draw(CONC.draw_name(name), "bool", lambda r: r.random() < 0.5)
    E = _E()
    name = E.draw_name(name)
    v = z3.Bool(name)
    E.draws.append((name, "bool", v))
    return SBool(v)


def sym_real(name, lo=None, hi=None):
    """A finite float, treated as a mathematical real by the prover."""
    def g(r):
        l = -1e6 if lo is None else lo
        h = 1e6 if hi is None else hi
        v = r.choice([0.0, 1.0, 0.5, -1.0, 2.5, r.uniform(l, h), float(r.randint(-20, 20)), l, h, r.uniform(-10, 10)])
        return float(min(max(v, l), h))
    if CONC is not None:
        return CONC.draw(CONC.draw_name(name), "real", g)
    E = _E()
    name = E.draw_name(name)
    v = z3.Real(name)
    if lo is not None:
        E.solver.add(v >= S.real_val(lo))
    if hi is not None:
        E.solver.add(v <= S.real_val(hi))
    E.draws.append((name, "real", v))
    return SReal(v)


def sym_float(name):
    """Any positive finite double, exactly, as (value, bits)."""
    import struct
    top = 0x7FEFFFFFFFFFFFFF
    if CONC is not None:
        def g(r):
            e = r.choice([0, 1, 2, 1022, 1023, 1024, 2045, 2046, r.randrange(0, 2047), r.randrange(1000, 1050)])
            m = r.choice([0, 0, 1, 2, 2 ** 52 - 1, 2 ** 51, r.getrandbits(52), r.getrandbits(52), r.getrandbits(20) << 32])
            return min(max((e << 52) | m, 1), top)
        b = CONC.draw(CONC.draw_name(name), "int", g)
        return struct.unpack("<d", struct.pack("<Q", b))[0], b
    b = sym_int(name, 1, top)
    E = _E()
    x = z3.Real(E.name(name + ".value"))
    E.solver.add(x > 0)
    return S.SFloat(x, b.e), b


def sym_number(name, lo=None, hi=None):
    """An int or a float."""
    if choose(name + ".kind", 2) == 0:
        return sym_int(name, lo, hi)
    return sym_real(name, lo, hi)


STR_POOL = ["", "a", "b", "key", "A", "0", "00", "é", "ü", " ", "  x ", "a b", "a,b", "a=b", "a;b", "-", "_", ".", "/", ":", "\n", "a\n",
            "\t", "%", "%20", "%41", "+", "٣", "𝔞", "x" * 15, "0" * 16, "0" * 32, "f" * 16, "service.name", "1", "-1", "true", "日本", "a-b", "A_b.c/d", "\x00", "\x7f", "'", '"', "{", "}"]


def gen_regex(pattern, r, flags=0):
    def node(items):
        return "".join(one(op, av) for op, av in items)

    def pick(av):
        neg = av[0][0] is C.NEGATE
        ok = re.compile("dummy")
        cands = []
        for op, x in av:
            if op is C.LITERAL:
                cands.append(chr(x))
            elif op is C.RANGE:
                cands += [chr(x[0]), chr(x[1]), chr(r.randint(*x))]
            elif op is C.CATEGORY:
                cands += {C.CATEGORY_DIGIT: list("0379"), C.CATEGORY_SPACE: list(" \t"), C.CATEGORY_WORD: list("az_09AZ")}.get(x, list("-%"))
        if neg:
            bad = set(cands)
            ranges = [x for op, x in av if op is C.RANGE]
            for _ in range(100):
                ch = r.choice("abcXYZ019-_./:;= ,")
                if ch not in bad and not any(lo <= ord(ch) <= hi for lo, hi in ranges):
                    return ch
            return "~"
        return r.choice(cands)

    def one(op, av):
        if op is C.LITERAL:
            return chr(av)
        if op is C.IN:
            return pick(av)
        if op is C.ANY:
            return r.choice("ab0 -")
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            hi = lo + 4 if hi == C.MAXREPEAT else hi
            n = r.choice([lo, hi, r.randint(lo, hi), min(hi, lo + r.randrange(0, 4))])
            return "".join(node(sub) for _ in range(n))
        if op is C.SUBPATTERN:
            return node(av[3])
        if op is C.BRANCH:
            return node(r.choice(av[1]))
        return ""
    return node(list(P.parse(pattern, flags)))


def _gen_str(pattern, pool):
    def g(r):
        if pattern is not None:
            return gen_regex(pattern, r)
        if pool:
            if r.random() < 0.7:
                p = r.choice(pool)
                return p(r) if callable(p) else p
        c = r.random()
        if c < 0.6:
            return r.choice(STR_POOL)
        return "".join(r.choice("abcXYZ019-_./:;=, %@é\n") for _ in range(r.randrange(0, 12)))
    return g


def sym_str(name, pattern=None, pool=None):
    """Any string (or any string fully matching the pattern)."""
    if CONC is not None:
        return CONC.draw(CONC.draw_name(name), "str", _gen_str(pattern, pool))
    E = _E()
    name = E.draw_name(name)
    v = z3.String(name)
    if pattern is not None:
        from . import regex as RX
        E.solver.add(RX.match_expr(RX.parsed(pattern, 0), v, "fullmatch"))
    E.draws.append((name, "str", v))
    return SStr(v)


def choose(name, n):
    """An arbitrary index below n, or an arbitrary element of a list: explored one path each."""
    opts = None
    if not isinstance(n, int):
        opts, n = n, len(n)
    if CONC is not None:
        i = CONC.draw(CONC.draw_name(name), "const", lambda r: r.randrange(n))
        i = min(i, n - 1)
    else:
        E = _E()
        name = E.draw_name(name)
        i = E.choose(n)
        E.draws.append((name, "const", i))
    return opts[i] if opts is not None else i


def sym_fn(name, sort, lo=None, hi=None, pattern=None, pool=None, arg="int"):
    """An arbitrary function from indexes (or strings) to int/bool/str/real."""
    if CONC is not None:
        base = {"int": _gen_int(lo, hi), "bool": lambda r: r.random() < 0.5, "str": _gen_str(pattern, pool),
                "real": lambda r: r.choice([0.0, 1.0, float(r.randint(-9, 9)), r.uniform(-100, 100)])}[sort]
        cname = CONC.draw_name(name)
        mode = CONC
        memo = {}

        def f(i):
            if i not in memo:
                def gen(r):
                    return base(r)
                gen.fn_key = (cname, i)
                gen.sort = sort
                v = mode.source.get(f"{cname}({i})", "fn", gen)
                mode.log[f"{cname}({i})"] = v
                memo[i] = v
            return memo[i]
        return f
    E = _E()
    cname = E.draw_name(name)
    so = {"int": z3.IntSort(), "bool": z3.BoolSort(), "str": z3.StringSort(), "real": z3.RealSort()}[sort]
    fn = z3.Function(cname, z3.IntSort() if arg == "int" else z3.StringSort(), so)
    E.draws.append((cname, "fn", fn))
    wrap = {"int": wrapnum, "bool": mkbool, "str": mkstr, "real": wrapnum}[sort]

    def g(i):
        e = fn(intexpr(i) if arg == "int" else strexpr(i))
        if not E.quant:
            if lo is not None:
                E.solver.add(e >= lo)
            if hi is not None:
                E.solver.add(e <= hi)
            if pattern is not None:
                from . import regex as RX
                E.solver.add(RX.match_expr(RX.parsed(pattern, 0), e, "fullmatch"))
        return wrap(e)
    if (lo is not None or hi is not None) and arg == "int":
        x = z3.Int(E.name("q"))
        cs = ([fn(x) >= lo] if lo is not None else []) + ([fn(x) <= hi] if hi is not None else [])
        E.solver.add(z3.ForAll([x], z3.And(*cs), patterns=[fn(x)]))
    return g


def sym_seq(name, make, pytype=list, min_len=0, max_len=None, mutable=False, maxlen=None, conc_max=4):
    """A sequence of arbitrary length whose i-th element is make(i)."""
    if CONC is not None:
        top = max(conc_max, min_len) if max_len is None else max_len
        n = CONC.draw(CONC.draw_name(name + ".len"), "int", lambda r: r.randint(min_len, top))
        n = min(n, 3000)
        items = [make(i) for i in range(n)]
        if pytype is collections.deque:
            return collections.deque(items, maxlen)
        return pytype(items)
    E = _E()
    nm = E.draw_name(name + ".len")
    n = z3.Int(nm)
    E.solver.add(n >= intexpr(min_len))
    if max_len is not None:
        E.solver.add(n <= intexpr(max_len))
    E.draws.append((nm, "int", n))
    E.seqlens.append(n)

    def at(i):
        return E.call(make, wrapnum(iexpr(i)))
    q = SSeq(n, at, pytype, name)
    if mutable:
        return E.new(SList(q, pytype, maxlen, None, name))
    return q


def sym_map(name, val, keys=None, pytype=dict, conc_max=4):
    """A string-keyed mapping of arbitrary size; val(key) gives the value of a present key."""
    if CONC is not None:
        n = CONC.draw(CONC.draw_name(name + ".size"), "int", lambda r: r.randint(0, conc_max))
        d = {}
        for i in range(min(n, 400)):
            k = CONC.draw(CONC.draw_name(f"{name}.key"), "str", _gen_str(None, keys))
            d[k] = val(k)
        return pytype(d)
    E = _E()
    nm = E.draw_name(name)
    has = z3.Function(nm + ".has", z3.StringSort(), z3.BoolSort())
    n = z3.Int(nm + ".size")
    E.solver.add(n >= 0)
    E.seqlens.append(n)
    E.draws.append((nm + ".size", "int", n))
    x = z3.String(E.name("q"))
    E.solver.add(z3.Implies(n == 0, z3.ForAll([x], z3.Not(has(x)), patterns=[has(x)])))
    return E.new(SMap(lambda k: has(k), lambda k: E.call(val, mkstr(k)), n, pytype, name))


def sym_odict(name, val, keys=None, conc_max=4, max_len=None):
    """An insertion-ordered string-keyed dict of arbitrary size with the value val(i) at position i."""
    if CONC is not None:
        n = CONC.draw(CONC.draw_name(name + ".size"), "int", lambda r: r.randint(0, conc_max if max_len is None else max_len))
        d = {}
        kname = CONC.draw_name(name + ".key")
        for i in range(min(n, 400)):
            def gen(r):
                return _gen_str(None, keys)(r)
            gen.fn_key, gen.sort = (kname, i), "str"
            k = CONC.source.get(f"{kname}({i})", "fn", gen)
            CONC.log[f"{kname}({i})"] = k
            if k in d:
                raise Discard()
            d[k] = val(i)
        return d
    E = _E()
    nm = E.draw_name(name + ".size")
    n = z3.Int(nm)
    E.solver.add(n >= 0)
    if max_len is not None:
        E.solver.add(n <= intexpr(max_len))
    E.draws.append((nm, "int", n))
    E.seqlens.append(n)
    kname = E.draw_name(name + ".key")
    f = z3.Function(kname, z3.IntSort(), z3.StringSort())
    ix = z3.Function(kname + ".idx", z3.StringSort(), z3.IntSort())
    E.draws.append((kname, "fn", f))

    def keyat(i):
        i = iexpr(i)
        if not E.quant:
            E.solver.add(z3.Implies(z3.And(0 <= i, i < n), ix(f(i)) == i))
        elif kname not in axiom:
            axiom.append(kname)
            q = z3.Int(kname + ".q")
            E.solver.add(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), ix(f(q)) == q), patterns=[f(q)]))
        return f(i)
    axiom = []

    def has(x):
        i = ix(x)
        return z3.And(0 <= i, i < n, f(i) == x)
    from .containers import SODict
    return E.new(SODict(n, keyat, lambda i: E.call(val, wrapnum(iexpr(i))), ix, has, dict, name))


# ------------------------------------------------------------------------------------ assertions
def check(cond, name, detail=""):
    if CONC is not None:
        CONC.checks += 1
        CONC.checked_names[name] = CONC.checked_names.get(name, 0) + 1
        if isinstance(cond, (list, tuple)):
            ok = all(cond)
        else:
            ok = bool(cond)
        if not ok:
            raise Violation(name, str(detail)[:500])
        return
    _E().check_any(cond, name, detail)


def fail(name, detail=""):
    if CONC is not None:
        raise Violation(name, str(detail)[:500])
    _E().fail_now(name, detail)


def assume(cond):
    if CONC is not None:
        if not (all(cond) if isinstance(cond, (list, tuple)) else cond):
            raise Discard()
        return
    _E().assume_any(cond)


def _val(x):
    """A condition, or a function giving it (evaluated only where needed)."""
    if isinstance(x, types.FunctionType):
        return x() if CONC is not None else _E().call(x)
    return x


def implies(a, b):
    if CONC is not None:
        return (not a) or bool(_val(b))
    E = _E()
    if not isinstance(a, Sym):
        return _val(b) if E.t(a) else True
    b = _val(b)
    return mkbool(z3.Implies(E.truth_expr(a), E.truth_expr(b) if isinstance(b, Sym) else z3.BoolVal(bool(b))))


def iff(a, b):
    if CONC is not None:
        return bool(a) == bool(b)
    E = _E()
    ea = E.truth_expr(a) if isinstance(a, Sym) else z3.BoolVal(E.t(a))
    eb = E.truth_expr(b) if isinstance(b, Sym) else z3.BoolVal(E.t(b))
    return mkbool(ea == eb)


def both(*xs):
    """Conjunction without case splits."""
    if CONC is not None:
        return all(bool(_val(x)) for x in xs)
    return _E().conj(_val(x) for x in xs)


def either(*xs):
    if CONC is not None:
        return any(bool(_val(x)) for x in xs)
    return _E().disj(_val(x) for x in xs)


def neg(x):
    if CONC is not None:
        return not x
    return _E().un("not", x)


def ite(c, a, b):
    """c ? a : b for primitive values without a case split."""
    if CONC is not None:
        return a if c else b
    E = _E()
    if not isinstance(c, Sym):
        return a if E.t(c) else b
    r = E.ite_merge(E.truth_expr(c), a, b)
    if r is S.MISSING:
        return a if E.t(c) else b
    return r


def is_true(c):
    """A case split of the contract itself."""
    if CONC is not None:
        return bool(c)
    return _E().t(c)


def forall(lo, hi, body):
    if CONC is not None:
        return all(_all(body(i)) for i in range(lo, hi))
    from .engine import ForallFact
    E = _E()
    return ForallFact(lo, hi, lambda j: E.call(body, j))


def _all(r):
    return all(r) if isinstance(r, (list, tuple)) else bool(r)


def exists(lo, hi, body):
    if CONC is not None:
        return any(bool(body(i)) for i in range(lo, hi))
    E = _E()
    l, h = intexpr(lo), intexpr(hi)
    j = z3.Int(E.name("qe"))
    E.quant += 1
    try:
        r = E.call(body, SInt(j))
    finally:
        E.quant -= 1
    return mkbool(z3.Exists([j], z3.And(l <= j, j < h, E.truth_expr(r) if isinstance(r, Sym) else z3.BoolVal(bool(r)))))


def same_seq(a, b):
    """Equality of two sequences, element by element, as list of clauses (skolemised when proved)."""
    if CONC is not None:
        a, b = list(a), list(b)
        return len(a) == len(b) and all(x == y for x, y in zip(a, b))
    E = _E()
    qa, qb = E.as_sseq(a, True), E.as_sseq(b, True)
    if qa is None or qb is None:
        a, b = list(E.it(a)), list(E.it(b))
        if len(a) != len(b):
            return False
        return E.conj(E.eq(x, y) for x, y in zip(a, b))
    from .engine import Clauses, ForallFact
    return Clauses([mkbool(qa.nexpr() == qb.nexpr()), ForallFact(0, wrapnum(qa.nexpr()), lambda j: E.eq(qa.at(num(j)), qb.at(num(j))))])


def symbolic_shifts():
    """From here on `x >> a` with a symbolic amount is an uninterpreted value with the facts of `halving` and `in_order`."""
    if CONC is None:
        _E().symbolic_shifts = True


def halving(x, a):
    """The definition of x >> a at the amount a >= 0: x >> 0 is x, x >> (a + 1) is (x >> a) >> 1."""
    if CONC is not None:
        return
    assume((x >> (a + 1)) == ((x >> a) >> 1))
    assume(implies(a == 0, (x >> a) == x))


def in_order(x, y, a):
    """Halving a times keeps the order of x <= y and does not widen the distance (by induction over a; the step is a contract)."""
    if CONC is not None:
        return
    assume(implies(x <= y, both((x >> a) <= (y >> a), (y >> a) - (x >> a) <= y - x)))


def length(x):
    if CONC is not None:
        return len(x)
    return _E().call(len, x)


def item(x, i):
    """x[i] for 0 <= i < len(x) (no bounds case split)."""
    if CONC is not None:
        return x[i] if hasattr(x, "__getitem__") else list(x)[i]
    E = _E()
    q = E.as_sseq(x, True)
    return q.at(num(i)) if q is not None else E.gi(x, i)


def cover(name):
    if CONC is None:
        _E().obl("cover:" + name).covered = True


# ------------------------------------------------------------------------------------ code hooks
class LoopInv:
    def __init__(self, clauses, over=None, key=None, ordinal=None, modifies=(), mods=(), locals_=None, decreases=None, is_while=False):
        self.is_while = is_while or decreases is not None
        self.over, self.key, self.ordinal = over, key, ordinal
        self._clauses, self._mods = clauses, mods
        self.modifies = list(modifies)
        self.locals_ = locals_ or {}
        self.decreases = decreases

    def clauses(self, env, i):
        E = _E()
        r = E.call(self._clauses, env, i)
        return r if isinstance(r, (list, tuple)) else [r]

    def mod_ids(self):
        out = set()
        for m in self._mods:
            out.add((id(m[0]), m[1]) if isinstance(m, tuple) and len(m) == 2 and isinstance(m[1], str) else id(m))
        return out


def loop_inv(clauses, over=None, key=None, ordinal=None, modifies=(), mods=(), locals_=None, decreases=None, is_while=False):
    """Invariant clauses(env, i) of the loop over the named symbolic sequence (or of the loop in function `key`).

    modifies: functions giving the modified locations arbitrary values; mods: those locations."""
    if CONC is not None:
        return
    _E().loop_invs.append(LoopInv(clauses, over, key, ordinal, modifies, mods, locals_, decreases, is_while))


def havoc_list(l, make):
    """Arbitrary contents for a list-like ghost object."""
    E = _E()
    E.counter += 0
    tag = E.name("hv")
    n = z3.Int(tag + ".len")
    E.solver.add(n >= 0)
    l.seq = SSeq(n, lambda i: E.call(make, tag, wrapnum(iexpr(i))), l.pytype, None)


def ghost_list():
    """An empty ghost sequence that may grow to any length."""
    if CONC is not None:
        return []
    E = _E()
    return E.new(SList(seq_of([]), list))


def any_list(sort):
    """For loop_inv(locals_=...): a local list of arbitrary length and contents."""
    def make(tag):
        l = ghost_list()
        havoc_list(l, lambda t, i: ghost_fn(t, sort)(i))
        return l
    return make


def any_odict(key_pattern=None, val_pattern=None):
    """For loop_inv(locals_=...): a local str-to-str dict of any size whose keys and values match the patterns."""
    def make(tag):
        v = sym_fn(tag + ".v", "str", pattern=val_pattern)
        d = sym_odict(tag, v)
        if key_pattern is not None:
            from . import regex as RX
            ka = d.keyat

            def keyat(i):
                k = ka(i)
                if not _E().quant:
                    _E().solver.add(RX.match_expr(RX.parsed(key_pattern, 0), k, "fullmatch"))
                return k
            d.keyat = keyat
        return d
    return make


def havoc_field(local, field, make):
    """For loop_inv(modifies=...): arbitrary contents for the named field of the object in the named local variable."""
    def f(env):
        obj = getattr(env, local)
        v = make(_E().name(field))
        set_attr(obj, field, v)
        _E().havocked_fields.append((obj, field))
        return v
    return f


def ghost_fn(tag, sort):
    so = {"int": z3.IntSort(), "bool": z3.BoolSort(), "str": z3.StringSort(), "real": z3.RealSort()}[sort]
    fn = z3.Function(tag, z3.IntSort(), so)
    wrap = {"int": wrapnum, "bool": mkbool, "str": mkstr, "real": wrapnum}[sort]
    return lambda i: wrap(fn(intexpr(i)))


def fresh_int(base="f"):
    return _E().fresh_int(base)


def fresh_real(base="f"):
    return wrapnum(z3.Real(_E().name(base)))


def fresh_bool(base="f"):
    return mkbool(z3.Bool(_E().name(base)))


def stub(target, attr, value):
    """Replace an attribute of a module, class or object for this run."""
    if not hasattr(target, attr):
        raise ContractMismatch(f"{target!r} has no {attr}")
    if CONC is not None:
        d = target.__dict__ if hasattr(target, "__dict__") else {}
        had = attr in d
        old = d.get(attr) if had else None
        CONC.undo.append((lambda: setattr(target, attr, old)) if had else (lambda: delattr(target, attr)))
        setattr(target, attr, value)
        return
    E = _E()
    if isinstance(target, (types.ModuleType, type)):
        E.sa(target, attr, value)
    else:
        E.touch(target)
        object.__setattr__(target, attr, value)


def stub_fn(real, fn):
    """Replace a library function wherever opentelemetry code refers to it."""
    if CONC is not None:
        for m in list(sys.modules.values()):
            if m is None or not getattr(m, "__name__", "").startswith("opentelemetry"):
                continue
            for n, v in list(vars(m).items()):
                if v is real:
                    CONC.undo.append(lambda m=m, n=n: setattr(m, n, real))
                    setattr(m, n, fn)
        own = sys.modules.get(real.__module__ or "time") if getattr(real, "__module__", None) else None
        if own is None:
            own = time
        n = real.__name__
        if getattr(own, n, None) is real:
            CONC.undo.append(lambda: setattr(own, n, real))
            setattr(own, n, fn)
        return
    E = _E()
    E.stub_models[id(real)] = (real, lambda E, *a, **k: E.call(fn, *a, **k))


def set_clock(fn):
    """time_ns() of the code under contract."""
    if CONC is not None:
        stub_fn(time.time_ns, fn)
        return
    _E().clock_fn = fn


def lazy_tasks():
    """Thread pool tasks run only when somebody waits for them (the schedule in which the pool is as late as it can be)."""
    if CONC is None:
        _E().lazy_tasks = True
        return
    from concurrent.futures import ThreadPoolExecutor
    real, n = ThreadPoolExecutor.submit, [0]

    def submit(self, fn, /, *a, **k):
        n[0] += 1
        late = n[0] % 2

        def slow():
            if late:
                time.sleep(0.01)
            return fn(*a, **k)
        return real(self, slow)
    ThreadPoolExecutor.submit = submit
    CONC.undo.append(lambda: setattr(ThreadPoolExecutor, "submit", real))


def set_env(**kv):
    """Environment variables (None: absent) as the code sees them."""
    if CONC is not None:
        for k, v in kv.items():
            old = os.environ.get(k)
            CONC.undo.append(lambda k=k, old=old: os.environ.__setitem__(k, old) if old is not None else os.environ.pop(k, None))
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        return
    _E().env.update(kv)


def on_exit(fn):
    """Undo action of a native run (symbolic runs undo their heap changes themselves)."""
    if CONC is not None:
        CONC.undo.append(fn)
    else:
        _E().undo.append(fn)


def need(cond, what):
    """A fact about the shape of the code the contract relies on; without it the contract decides nothing."""
    if not cond:
        raise ContractMismatch(what)


def attr(obj, name):
    """A private field the contract relies on."""
    try:
        if CONC is not None:
            return getattr(obj, name)
        E = _E()
        saved, E.guards = E.guards, {}
        try:
            return E.ga(obj, name)
        finally:
            E.guards = saved
    except AttributeError:
        raise ContractMismatch(f"{type(obj).__name__} has no field {name}") from None


def set_attr(obj, name, value):
    kinds = [x.pytype if isinstance(x, Sym) else type(x) for x in (attr(obj, name), value)]
    if set(kinds) == {tuple, list}:
        raise ContractMismatch(f"{name} is a {kinds[0].__name__}")  # the contract speaks of another representation
    if CONC is not None:
        object.__setattr__(obj, name, value)
    else:
        E = _E()
        E.touch(obj, "obj", name)
        object.__setattr__(obj, name, value)


def guarded(obj, field, lock, reads=False):
    """Every write (or access) of obj.field must happen with the lock held."""
    if isinstance(obj, Sym) or not hasattr(obj, field) or not hasattr(lock, "locked"):
        raise ContractMismatch(f"no field {field}")
    if CONC is not None:
        cls, me = type(obj), obj
        had = "__setattr__" in cls.__dict__
        old = cls.__setattr__

        def setter(self, n, v):
            if self is me and n == field and not lock.locked():
                raise Violation(f"lock-discipline:{cls.__name__}.{field}", "field written without its lock")
            old(self, n, v)
        CONC.undo.append((lambda: setattr(cls, "__setattr__", old)) if had else (lambda: delattr(cls, "__setattr__")))
        cls.__setattr__ = setter
        return
    _E().guards[(id(obj), field)] = (lock.locked, reads)


def run_native(harness, source, timeout=None):
    """Run a contract natively.  Returns (status, name, detail, log) with status ok/violation/discard/mismatch."""
    import contextvars
    global CONC
    saved_E = S.E
    S.E = None
    CONC = mode = ConcMode(source)
    try:
        try:
            contextvars.copy_context().run(harness.fn)
            return "ok", None, None, mode
        except Violation as v:
            return "violation", v.name, v.detail, mode
        except (Discard, MemoryError):
            return "discard", None, None, mode
        except ContractMismatch as e:
            return "mismatch", None, str(e), mode
        except Unsupported as e:
            return "mismatch", None, str(e), mode
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            last = tb[-1].filename if tb else ""
            msg = f"{type(e).__name__}: {e}"
            det = msg + " | " + " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))
            if "/verif/contracts" in last and (isinstance(e, ImportError) or isinstance(e, AttributeError) and re.search(r"has no attribute '_", msg)):
                return "mismatch", None, det, mode
            if isinstance(e, AttributeError) and (type(getattr(e, "obj", None)).__module__ or "").startswith("contracts."):
                return "mismatch", None, det, mode  # the code uses more of an object of the contract's own than it has
            return "violation", "no-unexpected-exception", det, mode
    finally:
        for f in reversed(mode.undo):
            try:
                f()
            except Exception:
                pass
        CONC = None
        S.E = saved_E


def re_full(pattern, s):
    """re.fullmatch(pattern, s) is not None, as a condition."""
    if CONC is not None:
        return re.fullmatch(pattern, s) is not None
    if isinstance(s, str):
        return re.fullmatch(pattern, s) is not None
    from . import regex as RX
    return mkbool(RX.match_expr(RX.parsed(pattern, 0), strexpr(s), "fullmatch"))


# ------------------------------------------------------------------------------------ protobuf
def ghost_repeated(msg, field):
    """The message's repeated field, ready to be described by a loop invariant."""
    if CONC is not None:
        return getattr(msg, field)
    E = _E()
    l = ghost_list()
    E.touch(msg.vals)
    E._dset(msg.vals, field, l)
    return l


def pb_record(msg):
    """For loop_inv(mods=...): what assigning a field of the message changes."""
    return msg if CONC is not None else msg.vals


def pb_havoc(msg, field, value):
    """For loop_inv(modifies=...): the scalar field holds the given (arbitrary) value."""
    _E()._dset(msg.vals, field, value)
