"""Path explorer, obligation discharge and the hooks used by instrumented code."""
from __future__ import annotations

import builtins
import contextvars
import dataclasses
import enum
import logging
import os
import subprocess
import sys
import tempfile
import time
import types
import collections
import collections.abc
import functools
import inspect

import z3

from . import lang as L
from .twin import Twin

from . import sym as S
from .rewrite import NoSource, find_node, instrument, is_instrumented, key_of
from .containers import SList, SMap, SODict
from .sym import (Control, Failed, PathEnd, SBool, SBytesInt, SInt, SIter, SReal, SSeq, SStr, Sym, Unsupported,
                  arith, bexpr, compare, intexpr, is_num, mkbool, mkstr, negate, num, strexpr, wrapnum, zstr)

REPO = "/repo/"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/"
STDLIB_OK = {"_collections_abc", "contextlib", "collections.abc"}
MISSING = S.MISSING


class NeedFork(Control):
    pass


SLOW = os.environ.get("PYVC_SLOW")


class Obl:
    __slots__ = ("name", "instances", "discharged", "trivial", "failed", "unknown", "by_cvc5", "by_lang", "ms", "covered")

    def __init__(self, name):
        self.name = name
        self.instances = self.discharged = self.trivial = self.failed = self.unknown = self.by_cvc5 = self.by_lang = 0
        self.ms = 0.0
        self.covered = False


class Ctx:
    """A decision sequence being replayed/extended."""

    def __init__(self, prefix=()):
        self.dec = list(prefix)
        self.pos = 0
        self.alts = []  # positions with an unexplored alternative: (pos, next_choice, count)


class ForallFact:
    """Clause `forall j in [lo,hi): body(j)` of an invariant or assumption."""

    def __init__(self, lo, hi, body):
        self.lo, self.hi, self.body = lo, hi, body

    def __bool__(self):
        raise TypeError("a quantified clause is no condition; use a clause of its own or neg(exists(...))")


class Clauses(list):
    """A conjunction of clauses."""

    def __bool__(self):
        raise TypeError("clauses are no condition")


class Counterexample(Exception):
    pass


class Engine:
    Control = Control
    contracts_dir = VERIF + "contracts/"

    def __init__(self, timeout_ms=8000, max_paths=4000, max_seconds=120, unroll=None):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.max_seconds = max_seconds
        self.unroll = unroll
        self.obls: dict[str, Obl] = {}
        self.funcs: set[str] = set()
        self.native_calls: set[str] = set()
        self.models_used: set[str] = set()
        self.contracts_used: set[str] = set()
        self.failures = []
        self.unsupported = []
        self.bounded = False
        self.paths = 0
        self.covered_paths = 0
        self.solver_s = 0.0
        self.queries = 0
        self.hash_ok = False
        self.loop_invs: list = []
        self.lib_models: dict = {}
        self.aborting = False
        self.mocks: dict = {}
        self.lang_queries = 0
        self.string_ms = 300
        self.lang_only = os.environ.get('PYVC_LANG_ONLY', '1') == '1'

    # ------------------------------------------------------------------ path management
    def explore(self, fn):
        """Run fn() over all paths.  Returns True if exploration completed."""
        S.E = self
        prefix: list = []
        self._pending = []
        t0 = time.time()
        complete = True
        while True:
            ctx = Ctx(prefix)
            self.ctx = ctx
            self._begin()
            try:
                contextvars.copy_context().run(self._run_path, fn)
            finally:
                self._undo()
            self.paths += 1
            for pos, choice in ctx.alts:
                self._pending.append(ctx.dec[:pos] + [choice])
            if not self._pending:
                break
            prefix = self._pending.pop()
            if self.paths >= self.max_paths or time.time() - t0 > self.max_seconds:
                complete = False
                self.unsupported.append(f"path/time budget exhausted after {self.paths} paths, {time.time()-t0:.0f}s")
                break
            if len(self.failures) >= 3:
                complete = False
                break
        return complete

    def _begin(self):
        self.solver = Twin(self.timeout_ms)
        self.counter = 0
        self.draws = []
        self.draw_names: dict = {}
        self.fresh_ids: dict = {}
        self.epoch = 0
        self.undo = []
        self.snap_ids = set()
        self.frames = []  # active invariant-loop frames
        self.loop_invs = []
        self.symbolic_shifts = False
        self.pure_depth = 0
        self.seqlens = []
        self.env = {}
        self.guards = {}
        self.aborting = False
        self.stub_list = []
        self.hash_ok = False
        self.key_stack = []
        self.call_contracts = {}
        self.quant = 0
        self.after_inv = False
        self.imprecise = False
        self.merging = 0
        self.strip_memo: dict = {}
        self.pb_lists: dict = {}
        self.pb_lazy: set = set()
        self.pb_keep: list = []

    def _run_path(self, fn):
        try:
            self.call(fn)
            if self._sat(full=self.covered_paths < 2):
                self.covered_paths += 1
        except PathEnd:
            pass
        except Failed:
            pass
        except Unsupported as e:
            self.unsupported.append(str(e))
            if os.environ.get("PYVC_TRACE"):
                import traceback
                traceback.print_exc()
        except Control as e:
            self.unsupported.append(f"{type(e).__name__}: {e}")
        except RecursionError:
            self.unsupported.append("recursion depth")
        except Exception as e:  # an exception escaping the harness: obligation "no exception"
            if isinstance(e, (z3.Z3Exception,)):
                self.unsupported.append(f"z3: {e}")
                if os.environ.get("PYVC_TRACE"):
                    import traceback
                    traceback.print_exc()
                return
            if os.environ.get("PYVC_TRACE"):
                import traceback
                traceback.print_exc()
            try:
                self.fail_now(f"no-unexpected-exception", detail=f"{type(e).__name__}: {e}")
            except (Failed, PathEnd):
                pass
            except Unsupported as u:
                self.unsupported.append(str(u))

    def _undo(self):
        for f in reversed(self.undo):
            try:
                f()
            except Exception:
                pass
        self.undo = []

    def _sat(self, full=False):
        """May the path condition hold? (False only if it provably cannot)"""
        if self.solver.strings and not full:
            self.queries += 1
            t = time.time()
            r = self.solver.check_lite(ms=1000)
            self.solver_s += time.time() - t
            return r != z3.unsat
        return self._check() != z3.unsat

    def _check(self, *assump, deciding=False):
        t = time.time()
        sv = self.solver
        if not sv.strings and not any(z3.is_expr(a) and L.relevant(a) for a in assump):
            return self._check0(*assump)
        rel = False
        for a in assump:
            if z3.is_expr(a) and L.relevant(a):
                rel = True
                if not deciding and L.refuted(sv.list, a):
                    self.lang_queries += 1
                    self.solver_s += time.time() - t
                    return z3.unsat
        r = sv.check_lite(*assump, ms=1000 if deciding else None)
        self.queries += 1
        if r == z3.unsat or deciding and not rel:
            self.solver_s += time.time() - t
            return r
        if deciding and rel and self.lang_only:
            self.solver_s += time.time() - t
            return z3.unknown
        if not deciding and (assump or sv.marks):
            return self._check0(*assump)
        sv.set("timeout", min(self.timeout_ms, self.string_ms))
        try:
            return self._check0(*assump)
        finally:
            sv.set("timeout", self.timeout_ms)

    def _check0(self, *assump):
        t = time.time()
        r = self.solver.check(*assump)
        self.solver_s += time.time() - t
        self.queries += 1
        if SLOW and time.time() - t > 1:
            os.write(2, f"SLOW {time.time()-t:.1f}s {r} {str(assump)[:600]}\n".encode())
        return r

    # ------------------------------------------------------------------ symbols
    def name(self, base):
        self.counter += 1
        return f"{base}!{self.counter}"

    def draw_name(self, name):
        k = self.draw_names.get(name, 0)
        self.draw_names[name] = k + 1
        return name if k == 0 else f"{name}#{k}"

    def opaque_str(self, why):
        self.imprecise = True
        return SStr(z3.String(self.name("opaque_" + why)))

    def fresh_int(self, base="i"):
        return SInt(z3.Int(self.name(base)))

    def fresh_bool(self, base="b"):
        return SBool(z3.Bool(self.name(base)))

    def assume(self, e):
        if isinstance(e, (SBool,)):
            e = e.e
        if isinstance(e, bool):
            if not e:
                raise PathEnd()
            return
        if isinstance(e, Sym):
            e = self.truth_expr(e)
        self.solver.add(e)

    def truth_expr(self, v):
        if isinstance(v, SBool):
            return v.e
        if isinstance(v, (SInt, SReal)):
            return v.e != 0
        if isinstance(v, SStr):
            return z3.Length(v.e) > 0
        if isinstance(v, SSeq):
            return v.nexpr() > 0
        if isinstance(v, SList):
            return v.seq.nexpr() > 0
        if isinstance(v, (SMap, SODict)):
            return v.nexpr() > 0
        if isinstance(v, Sym):
            return z3.BoolVal(bool(v))
        return z3.BoolVal(bool(v))

    # ------------------------------------------------------------------ decisions
    def _decide(self, options):
        """options: list of z3 exprs (or None = unconditional). Returns chosen index."""
        if self.aborting:
            raise PathEnd()
        ctx = self.ctx
        if ctx.pos < len(ctx.dec):
            c = ctx.dec[ctx.pos]
            ctx.pos += 1
            if options[c] is not None:
                self.solver.add(options[c])
            return c
        feas = []
        known = None
        if len(options) == 2 and options[0] is not None and options[1] is not None and L.relevant(options[0]):
            for i in (0, 1):
                if L.refuted(self.solver.assertions(), options[i]):
                    self.lang_queries += 1
                    known = 1 - i
                    break
        for i, o in enumerate(options):
            if known is not None:
                feas = [known]
                break
            if o is None:
                feas.append(i)
                continue
            if len(options) == 2 and i == 1 and not feas:
                feas.append(1)  # the other side is infeasible
                continue
            r = self._check(o, deciding=len(options) == 2)
            if r != z3.unsat:
                feas.append(i)
        if not feas:
            raise PathEnd()
        c = feas[0]
        # alternatives as explicit choices
        for alt in feas[1:]:
            ctx.alts.append((ctx.pos, alt))
        ctx.dec.append(c)
        ctx.pos += 1
        if options[c] is not None:
            self.solver.add(options[c])
        return c

    def branch(self, e):
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.quant:
            raise Unsupported("case split under a quantifier")
        return self._decide([e, z3.Not(e)]) == 0

    def choose(self, n):
        if n <= 0:
            raise PathEnd()
        if n == 1:
            return 0
        return self._decide([None] * n)

    def concretize(self, v, limit=80):
        """All feasible values of a finitely ranged symbolic int, one path each."""
        if not isinstance(v, Sym):
            return v
        e = z3.simplify(num(v))
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(limit):
            ctx = self.ctx
            if ctx.pos < len(ctx.dec):
                d = ctx.dec[ctx.pos]
                ctx.pos += 1
                if d[0] == "eq":
                    self.solver.add(e == d[1])
                    return d[1]
                self.solver.add(e != d[1])
                continue
            r = self._check()
            if r == z3.unsat:
                raise PathEnd()
            if r != z3.sat:
                raise Unsupported("cannot enumerate a symbolic integer")
            val = self.solver.model().eval(e, model_completion=True).as_long()
            pos = ctx.pos
            if self._check(e != val) != z3.unsat:
                ctx.alts.append((pos, ("ne", val)))
            ctx.dec.append(("eq", val))
            ctx.pos += 1
            self.solver.add(e == val)
            return val
        raise Unsupported("symbolic integer ranges over too many values")

    def merge(self, fn):
        """Evaluate fn() over its own local paths and merge the (boolean/primitive) results."""
        outer = self.ctx
        results = []
        stack = [[]]
        saved = (self.counter, dict(self.draw_names))
        hi = self.counter
        runs = 0
        exc = None
        while stack:
            pre = stack.pop()
            runs += 1
            if runs > 200:
                raise Unsupported("merge: too many local paths")
            self.ctx = Ctx(pre)
            base = len(self.solver.assertions())
            self.solver.push()
            self.counter = saved[0]
            self.merging = getattr(self, "merging", 0) + 1
            try:
                try:
                    v = fn()
                    ok = True
                except PathEnd:
                    ok = False
                conds = self.solver.assertions()[base:]
            finally:
                self.solver.pop()
                c = self.ctx
                self.ctx = outer
                self.merging -= 1
            hi = max(hi, self.counter)
            for pos, choice in c.alts:
                stack.append(c.dec[:pos] + [choice])
            if ok:
                results.append((z3.And(*conds) if conds else z3.BoolVal(True), v))
        self.counter = hi
        if not results:
            raise PathEnd()
        res = results[-1][1]
        for cond, v in reversed(results[:-1]):
            m = self.ite_merge(cond, v, res)
            if m is MISSING:
                raise Unsupported("merge: results of different shape")
            res = m
        return res

    def ite_merge(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return mkbool(z3.If(c, bexpr(a), bexpr(b)))
        if is_num(a) and is_num(b) and not isinstance(a, (bool, SBool)) and not isinstance(b, (bool, SBool)):
            try:
                x, y = num(a), num(b)
            except Unsupported:
                return MISSING
            if x.is_int() != y.is_int():
                return MISSING
            return wrapnum(z3.If(c, x, y))
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return mkstr(z3.If(c, strexpr(a), strexpr(b)))
        if isinstance(a, tuple) and isinstance(b, tuple) and type(a) is type(b) is tuple and len(a) == len(b):
            out = []
            for x, y in zip(a, b):
                m = self.ite_merge(c, x, y)
                if m is MISSING:
                    return MISSING
                out.append(m)
            return tuple(out)
        return MISSING

    def ite(self, c, fa, fb):
        """c ? fa() : fb(), merged when both are primitive values, else forking."""
        if isinstance(c, SBool):
            c = c.e
        if isinstance(c, bool):
            return fa() if c else fb()
        c = z3.simplify(c)
        if z3.is_true(c):
            return fa()
        if z3.is_false(c):
            return fb()
        if getattr(self, "merging", 0) or self.quant:
            a, b = fa(), fb()
            m = self.ite_merge(c, a, b)
            if m is not MISSING:
                return m
        return fa() if self.branch(c) else fb()

    # ------------------------------------------------------------------ obligations
    def obl(self, name):
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = Obl(name)
        return o

    def check(self, cond, name, detail=""):
        if self.aborting:
            raise PathEnd()
        if getattr(self, "merging", 0):
            raise Unsupported("obligation inside a merged evaluation")
        o = self.obl(name)
        o.instances += 1
        if not isinstance(cond, Sym):
            if cond:
                o.discharged += 1
                o.trivial += 1
                o.covered = True
                return
            return self._refuted(o, z3.BoolVal(True), detail)
        e = self.truth_expr(cond)
        t = time.time()
        if L.relevant(e) and L.refuted(self.solver.assertions(), z3.Not(e)):
            o.discharged += 1
            o.by_lang += 1
            o.covered = True
            o.ms += (time.time() - t) * 1000
            self.lang_queries += 1
            self.solver.add(e)
            return
        self.solver.push()
        self.solver.add(z3.Not(e))
        r = z3.unknown
        if self.solver.strings:
            r = self.solver.lite.check()
            self.queries += 1
        if r != z3.unsat:
            r = self._check()
        if r == z3.unsat:
            self.solver.pop()
            o.discharged += 1
            o.covered = True
            o.ms += (time.time() - t) * 1000
            self.solver.add(e)
            return
        if r == z3.unknown:
            r2 = self._cvc5()
            if r2 == "unsat":
                self.solver.pop()
                o.discharged += 1
                o.by_cvc5 += 1
                o.covered = True
                o.ms += (time.time() - t) * 1000
                self.solver.add(e)
                return
            self.solver.pop()
            o.unknown += 1
            o.ms += (time.time() - t) * 1000
            self.unsupported.append(f"obligation {name}: solver answered unknown")
            self.solver.add(e)
            return
        self.solver.pop()
        return self._refuted(o, z3.Not(e), detail)

    def _refuted(self, o, neg, detail):
        # prefer small models
        model = None
        self.solver.push()
        self.solver.add(neg)
        r = self._check()
        if r == z3.unsat:
            # the path itself is infeasible
            self.solver.pop()
            o.discharged += 1
            raise PathEnd()
        if r == z3.sat:
            model = self.solver.model()
            for bound in (3, 8):
                self.solver.push()
                for n in self.seqlens:
                    self.solver.add(n <= bound)
                if self.seqlens and self._check() == z3.sat:
                    model = self.solver.model()
                    self.solver.pop()
                    break
                self.solver.pop()
        self.solver.pop()
        if r == z3.unknown:
            o.unknown += 1
            self.unsupported.append(f"obligation {o.name}: refutation undecided")
            raise PathEnd()
        o.failed += 1
        inv = bool(self.frames) or getattr(self, "after_inv", False)
        if os.environ.get("PYVC_DUMP"):
            os.write(2, f"FAILED {o.name}\n{chr(10).join(map(str, self.solver.assertions()))}\nNOT: {neg}\n".encode())
        self.failures.append({"obligation": o.name, "detail": detail, "model": model, "draws": list(self.draws),
                              "inductive": inv, "imprecise": self.imprecise, "decisions": list(self.ctx.dec), "model_text": str(model)[:4000] if model is not None else ""})
        raise Failed(o.name)

    def fail_now(self, name, detail=""):
        o = self.obl(name)
        o.instances += 1
        self._refuted(o, z3.BoolVal(True), detail)

    def _cvc5(self, tlim=8000):
        txt = self.solver.to_smt2()
        txt = "(set-logic ALL)\n" + txt
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(txt)
            t = time.time()
            p = subprocess.run(["/usr/bin/cvc5", "--strings-exp", f"--tlimit={tlim}", f.name], capture_output=True, text=True, timeout=tlim / 1000 + 5)
            self.solver_s += time.time() - t
            return p.stdout.strip().split("\n")[0]
        except Exception:
            return "unknown"
        finally:
            try:
                os.unlink(f.name)
            except OSError:
                pass

    # ------------------------------------------------------------------ heap bookkeeping
    def new(self, obj):
        self.fresh_ids[id(obj)] = (obj, self.epoch)
        return obj

    def is_fresh(self, obj):
        return id(obj) in self.fresh_ids

    def touch(self, obj, kind="obj", attr=None):
        """Called before mutating obj."""
        if self.aborting:
            raise PathEnd()
        if getattr(self, "merging", 0) and not self.is_fresh(obj):
            raise Unsupported("mutation inside a merged evaluation")
        ent = self.fresh_ids.get(id(obj))
        for fr in self.frames:
            if (ent is None or ent[1] < fr.epoch) and id(obj) not in fr.mod_ids and (id(obj), attr) not in fr.mod_ids:
                raise Unsupported(f"loop {fr.label} modifies {type(obj).__name__}{'.' + attr if attr else ''} outside its frame")
        if ent is None and id(obj) not in self.snap_ids:
            self.snap_ids.add(id(obj))
            self._snapshot(obj)

    def _snapshot(self, obj):
        if isinstance(obj, (list,)):
            c = list(obj)
            self.undo.append(lambda: obj.__setitem__(slice(None), c))
        elif isinstance(obj, collections.deque):
            c = list(obj)
            self.undo.append(lambda: (obj.clear(), obj.extend(c)))
        elif isinstance(obj, dict):
            c = list(dict.items(obj))
            def restore():
                dict.clear(obj)
                for k, v in c:
                    dict.__setitem__(obj, k, v)
            self.undo.append(restore)
        elif isinstance(obj, set):
            c = set(obj)
            self.undo.append(lambda: (obj.clear(), obj.update(c)))
        if hasattr(obj, "__dict__") and isinstance(obj.__dict__, dict):
            d = dict(obj.__dict__)
            def rd():
                obj.__dict__.clear()
                obj.__dict__.update(d)
            self.undo.append(rd)
        elif isinstance(obj, type):
            raise Unsupported("class attribute mutation")
        slots = [s for k in type(obj).__mro__ for s in (k.__dict__.get("__slots__") or ()) if isinstance(k.__dict__.get("__slots__"), (tuple, list))]
        for s in slots:
            if s in ("__dict__", "__weakref__"):
                continue
            v = getattr(obj, s, MISSING)
            self.undo.append(lambda s=s, v=v: object.__setattr__(obj, s, v) if v is not MISSING else None)

    def save_globals(self, g, names):
        for n in names:
            key = ("g", id(g), n)
            if key in self.snap_ids:
                continue
            self.snap_ids.add(key)
            v = g.get(n, MISSING)
            self.undo.append(lambda g=g, n=n, v=v: g.__setitem__(n, v) if v is not MISSING else g.pop(n, None))

    # ------------------------------------------------------------------ scope
    def in_scope_code(self, code):
        fn = code.co_filename
        if fn.startswith(REPO) and "/gen/" not in fn and "_pb2" not in fn:
            return True
        if fn.startswith(VERIF + "contracts/"):
            return True
        return False

    def in_scope(self, f):
        if self.in_scope_code(f.__code__):
            return True
        m = getattr(f, "__module__", None)
        fn = f.__code__.co_filename
        return (m in STDLIB_OK or fn.endswith("/contextlib.py")) and (not fn.startswith("<") or fn.startswith("<frozen "))

    def type_lookup(self, t, name):
        for k in t.__mro__:
            if name in k.__dict__:
                return k.__dict__[name]
        return None

    def py_method(self, obj, name):
        """Python-level in-scope special method of obj's class, or None."""
        m = self.type_lookup(type(obj), name)
        if isinstance(m, types.FunctionType) and (is_instrumented(m) or self.in_scope(m)):
            return m
        return None


from .hooks import install as _install  # noqa: E402

_install(Engine)
