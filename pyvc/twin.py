"""A solver with a lighter twin in which strings are points of an uninterpreted sort with a length."""
import z3

from . import lang as L

U = z3.DeclareSort("Text")
LEN = z3.Function("text.len", U, z3.IntSort())
LIT = z3.Function("text.literal", U, z3.IntSort())


_strings: dict = {}


def has_strings(e):
    """Does any string occur in the expression (also below quantifiers)?"""
    k = e.get_id()
    hit = _strings.get(k)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    if z3.is_string(e):
        r = True
    elif z3.is_quantifier(e):
        r = has_strings(e.body())
    else:
        r = any(has_strings(c) for c in e.children())
    if len(_strings) > 200000:
        _strings.clear()
    _strings[k] = (e, r)
    return r


def lifted(sort):
    return U if sort == z3.StringSort() else sort


class Abstraction:
    """Over-approximation of formulas about strings: equality, literals, concatenation lengths; other atoms become free booleans."""

    def __init__(self):
        self.memo = {}
        self.terms = {}
        self.lits = {}
        self.bound = []
        self.consts = {}
        self.n = 0
        self.fns = {}

    def uf(self, t, side):
        """An uninterpreted function's application, with texts for strings."""
        d = t.decl()
        k = d.get_id()
        if k not in self.fns:
            self.fns[k] = (d, z3.Function(f"text.fn!{d.name()}!{len(self.fns)}", *[lifted(d.domain(i)) for i in range(d.arity())], lifted(d.range())))
        return self.fns[k][1](*[self.text(c, side) if z3.is_string(c) else self.formula(c, side) for c in t.children()])

    def fresh(self, name, sort, t):
        """A new constant standing for t, or a function of the bound variables in scope."""
        if not self.bound:
            return z3.Const(name, sort)
        return z3.Function(name, *[b.sort() for b in self.bound], sort)(*self.bound)

    def quantified(self, q, side):
        vs = [z3.Const(f"bound!{q.get_id()}!{i}!{len(self.memo)}", lifted(q.var_sort(i))) for i in range(q.num_vars())]
        if any(v.sort() == U for v in vs):
            raise ValueError("quantified text")
        inner = []
        self.bound += vs
        memo, terms = self.memo, self.terms
        self.memo, self.terms = {}, {}
        try:
            b = self.formula(z3.substitute_vars(q.body(), *reversed(vs)), inner)
            pats = []
            for i in range(q.num_patterns()):
                ps = [z3.substitute_vars(c, *reversed(vs)) for c in q.pattern(i).children()]
                pats.append(z3.MultiPattern(*[self.text(c, []) if z3.is_string(c) else self.formula(c, []) for c in ps]))
        finally:
            del self.bound[len(self.bound) - len(vs):]
            self.memo, self.terms = memo, terms
        if inner:
            side.append(z3.ForAll(vs, z3.And(*inner)))
        return (z3.ForAll if q.is_forall() else z3.Exists)(vs, b, patterns=pats)

    def text(self, t, side):
        k = t.get_id()
        hit = self.terms.get(k)
        if hit is not None and hit[0].eq(t):
            side += hit[2]
            return hit[1]
        facts = []
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            u = z3.If(self.formula(t.arg(0), facts), self.text(t.arg(1), facts), self.text(t.arg(2), facts))
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
            u = self.uf(t, facts)
        else:
            constant = z3.is_string_value(t) or z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
            u = self.fresh_text(t) if constant else self.fresh(f"text!{k}!{self.count()}", U, t)
            if z3.is_string_value(t):
                s = L.pystr(t)
                facts.append(LIT(u) == self.lits.setdefault(s, len(self.lits)))
                facts.append(LEN(u) == len(s))
            elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                facts.append(LEN(u) == z3.Sum([self.length(p, facts) for p in L.pieces(t)]))
            else:
                facts.append(LEN(u) >= 0)
        self.terms[k] = (t, u, facts)
        side += facts
        return u

    def count(self):
        self.n += 1
        return self.n

    def fresh_text(self, t):
        k = t.get_id()
        if k not in self.consts:
            self.consts[k] = (t, z3.Const(f"text!{k}!{self.count()}", U))
        return self.consts[k][1]

    def length(self, t, side):
        if z3.is_string_value(t):
            return z3.IntVal(len(L.pystr(t)))
        return LEN(self.text(t, side))

    def formula(self, e, side):
        if not has_strings(e):
            return e
        k = e.get_id()
        hit = self.memo.get(k)
        if hit is not None and hit[0].eq(e):
            side += hit[2]
            return hit[1]
        mine = []
        if z3.is_quantifier(e):
            r = self.quantified(e, mine)
            self.memo[k] = (e, r, mine)
            side += mine
            return r
        if z3.is_string(e):
            raise ValueError("text out of place")
        d = e.decl().kind()
        ch = e.children()
        if d == z3.Z3_OP_SEQ_LENGTH:
            r = self.length(ch[0], mine)
        elif d == z3.Z3_OP_EQ and z3.is_string(ch[0]):
            r = self.text(ch[0], mine) == self.text(ch[1], mine)
        elif d in (z3.Z3_OP_SEQ_IN_RE, z3.Z3_OP_SEQ_CONTAINS, z3.Z3_OP_SEQ_PREFIX, z3.Z3_OP_SEQ_SUFFIX):
            r = self.fresh(f"atom!{k}!{self.count()}", z3.BoolSort(), e)
            if d == z3.Z3_OP_SEQ_IN_RE:
                try:
                    n = L.fixed_len(L.of_re(ch[1]))
                except ValueError:
                    n = None
                if n is not None:
                    mine.append(z3.Implies(r, self.length(ch[0], mine) == n))
        elif d == z3.Z3_OP_UNINTERPRETED:
            r = self.uf(e, mine)
        elif not any(z3.is_string(c) for c in ch):
            r = e.decl()(*[self.formula(c, mine) for c in ch])
        elif d == z3.Z3_OP_DISTINCT:
            r = z3.Distinct(*[self.text(c, mine) for c in ch])
        else:
            r = self.fresh(f"atom!{k}!{self.count()}", e.sort(), e)
        self.memo[k] = (e, r, mine)
        side += mine
        return r


class Twin:
    def __init__(self, timeout_ms):
        self.full = z3.Solver()
        self.lite = z3.Solver()
        self.full.set("timeout", timeout_ms)
        self.lite.set("timeout", timeout_ms)
        self.lite.set("smt.mbqi", False)
        self.timeout_ms = timeout_ms
        self.list = L.AList()
        self.marks = []
        self.strings = 0
        self.abs = Abstraction()

    def set(self, k, v):
        self.full.set(k, v)

    def abstract(self, f, side):
        try:
            return self.abs.formula(f, side)
        except (z3.Z3Exception, ValueError, TypeError):
            return z3.BoolVal(True)

    def add(self, *fs):
        for f in fs:
            if isinstance(f, (list, tuple)):
                self.add(*f)
                continue
            if isinstance(f, bool):
                f = z3.BoolVal(f)
            self.full.add(f)
            self.list.append(f)
            if has_strings(f):
                self.strings += 1
                side = []
                g = self.abstract(f, side)
                self.lite.add(g, *side)
            else:
                self.lite.add(f)

    def push(self):
        self.full.push()
        self.lite.push()
        self.marks.append((len(self.list), self.strings))

    def pop(self):
        self.full.pop()
        self.lite.pop()
        n, self.strings = self.marks.pop()
        self.list.cut(n)

    def check(self, *a):
        return self.full.check(*a)

    def check_lite(self, *assump, ms=None):
        if ms is not None:
            self.lite.set("timeout", min(ms, self.timeout_ms))
            try:
                return self.check_lite(*assump)
            finally:
                self.lite.set("timeout", self.timeout_ms)
        return self._check_lite(*assump)

    def _check_lite(self, *assump):
        """unsat is conclusive; anything else is not (unless no assertion and no assumption is about strings)."""
        side, hard = [], []
        for a in assump:
            hard.append(self.abstract(a, side) if z3.is_expr(a) and has_strings(a) else a)
        if not hard and not side:
            return self.lite.check()
        self.lite.push()
        self.lite.add(*side, *hard)
        r = self.lite.check()
        self.lite.pop()
        return r

    def assertions(self):
        return self.list

    def model(self):
        return self.full.model()

    def to_smt2(self):
        return self.full.to_smt2()
