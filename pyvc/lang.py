"""Decision procedure for regular-language facts: boolean combinations of regular expression memberships, literals, lengths and
concatenations over string terms.  Symbolic Brzozowski derivatives over character ranges; used before the SMT solver (which is slow on
these) and only to show unsatisfiability, on an over-approximation of the assertions."""
from __future__ import annotations

import z3

MAXC = 0x2FFFF
LIMIT = 6000

# ------------------------------------------------------------------------------------ regular expressions (hash-consed)
_tab: dict = {}
_nodes: list = []


def _mk(*key):
    r = _tab.get(key)
    if r is None:
        r = _tab[key] = len(_nodes)
        _nodes.append(key)
    return r


EMPTY = _mk("0")
EPS = _mk("e")
ANY = _mk("c", ((0, MAXC),))


def norm(ranges):
    rs = sorted((max(0, a), min(MAXC, b)) for a, b in ranges if a <= b)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)


def cls(ranges):
    r = norm(ranges)
    return _mk("c", r) if r else EMPTY


def cat(a, b):
    if a == EMPTY or b == EMPTY:
        return EMPTY
    if a == EPS:
        return b
    if b == EPS:
        return a
    k = _nodes[a]
    if k[0] == ".":
        return _mk(".", k[1], cat(k[2], b))
    return _mk(".", a, b)


def cats(xs):
    r = EPS
    for x in reversed(list(xs)):
        r = cat(x, r)
    return r


def alt(*xs):
    s = set()
    ch = []
    for x in xs:
        k = _nodes[x]
        if k[0] == "|":
            items = k[1]
        else:
            items = (x,)
        for y in items:
            ky = _nodes[y]
            if ky[0] == "c":
                ch += ky[1]
            elif y != EMPTY:
                s.add(y)
    if ch:
        s.add(cls(ch))
    if FULL in s:
        return FULL
    if not s:
        return EMPTY
    if len(s) == 1:
        return next(iter(s))
    return _mk("|", tuple(sorted(s)))


def inter(*xs):
    s = set()
    for x in xs:
        k = _nodes[x]
        for y in (k[1] if k[0] == "&" else (x,)):
            if y == EMPTY:
                return EMPTY
            if y != FULL:
                s.add(y)
    if not s:
        return FULL
    for y in s:
        if neg(y) in s:
            return EMPTY
    if EPS in s:
        return EPS if all(nullable(y) for y in s) else EMPTY
    if len(s) == 1:
        return next(iter(s))
    return _mk("&", tuple(sorted(s)))


def neg(x):
    k = _nodes[x]
    if k[0] == "!":
        return k[1]
    return _mk("!", x)


def star(a):
    if a in (EMPTY, EPS):
        return EPS
    k = _nodes[a]
    if k[0] == "*":
        return a
    return _mk("*", a)


def loop(a, lo, hi):
    """a repeated lo..hi times (hi None: no bound)"""
    if hi is None:
        return cat(loop(a, lo, lo), star(a))
    if hi <= 0:
        return EPS
    if a in (EMPTY,):
        return EPS if lo <= 0 else EMPTY
    if a == EPS:
        return EPS
    if lo == hi == 1:
        return a
    return _mk("{", a, max(lo, 0), hi)


def lit(s):
    return cats(cls([(ord(c), ord(c))]) for c in s)


FULL = _mk("*", ANY)
_tab[("!", EMPTY)] = FULL

_null: dict = {}


def nullable(x):
    r = _null.get(x)
    if r is None:
        k = _nodes[x]
        t = k[0]
        if t in ("e", "*"):
            r = True
        elif t in ("0", "c"):
            r = False
        elif t == ".":
            r = nullable(k[1]) and nullable(k[2])
        elif t == "|":
            r = any(nullable(y) for y in k[1])
        elif t == "&":
            r = all(nullable(y) for y in k[1])
        elif t == "!":
            r = not nullable(k[1])
        else:
            r = k[2] == 0 or nullable(k[1])
        _null[x] = r
    return r


_points: dict = {}


def points(x):
    """Characters such that every character behaves, for the next step, like the greatest of these not above it."""
    r = _points.get(x)
    if r is None:
        k = _nodes[x]
        t = k[0]
        if t in ("0", "e"):
            r = frozenset((0,))
        elif t == "c":
            r = frozenset([0] + [a for a, b in k[1]] + [b + 1 for a, b in k[1] if b < MAXC])
        elif t == ".":
            r = points(k[1]) | points(k[2]) if nullable(k[1]) else points(k[1])
        elif t in ("|", "&"):
            r = frozenset().union(*[points(y) for y in k[1]])
        else:
            r = points(k[1])
        _points[x] = r
    return r


_der: dict = {}


def deriv(x, c):
    key = (x, c)
    r = _der.get(key)
    if r is not None:
        return r
    k = _nodes[x]
    t = k[0]
    if t in ("0", "e"):
        r = EMPTY
    elif t == "c":
        r = EPS if any(a <= c <= b for a, b in k[1]) else EMPTY
    elif t == ".":
        r = cat(deriv(k[1], c), k[2])
        if nullable(k[1]):
            r = alt(r, deriv(k[2], c))
    elif t == "|":
        r = alt(*[deriv(y, c) for y in k[1]])
    elif t == "&":
        r = inter(*[deriv(y, c) for y in k[1]])
    elif t == "!":
        r = neg(deriv(k[1], c))
    elif t == "*":
        r = cat(deriv(k[1], c), x)
    else:
        r = cat(deriv(k[1], c), loop(k[1], k[2] - 1, k[3] - 1))
    _der[key] = r
    return r


_empty: dict = {EMPTY: True, EPS: False, FULL: False}


def is_empty(x):
    """True, False, or None when the search is too large."""
    r = _empty.get(x)
    if r is not None:
        return r
    seen = {x}
    todo = [x]
    while todo:
        y = todo.pop()
        if nullable(y) or _empty.get(y) is False:
            _empty[x] = False
            return False
        for c in points(y):
            z = deriv(y, c)
            if z == EMPTY or z in seen or _empty.get(z) is True:
                continue
            seen.add(z)
            if len(seen) > LIMIT:
                return None
            todo.append(z)
    for y in seen:
        _empty[y] = True
    return True


def subset(a, b):
    return is_empty(inter(a, neg(b))) is True


def first_chars(x):
    out = []
    ps = sorted(points(x))
    for i, c in enumerate(ps):
        if is_empty(deriv(x, c)) is not True:
            out.append((c, ps[i + 1] - 1 if i + 1 < len(ps) else MAXC))
    return norm(out)


def later_chars(x):
    """Characters that can follow a word of the language inside a longer word of it (over-approximated)."""
    k = _nodes[x]
    t = k[0]

    def chars(y):
        q = _nodes[y]
        if q[0] in ("0", "e"):
            return ()
        if q[0] == "c":
            return q[1]
        if q[0] in ("|", "&"):
            return norm([r for z in q[1] for r in chars(z)])
        if q[0] == ".":
            return norm(list(chars(q[1])) + list(chars(q[2])))
        if q[0] == "!":
            return ((0, MAXC),)
        return chars(q[1])
    if fixed_len(x) is not None:
        return ()
    if t == "." and fixed_len(k[1]) is not None:
        return later_chars(k[2]) if nullable(k[2]) is False and False else chars(k[2])
    return chars(x)


_flen: dict = {}


def fixed_len(x):
    """The common length of all words, or None."""
    if x in _flen:
        return _flen[x]
    k = _nodes[x]
    t = k[0]
    r = None
    if t == "e":
        r = 0
    elif t == "c":
        r = 1
    elif t == ".":
        a, b = fixed_len(k[1]), fixed_len(k[2])
        r = a + b if a is not None and b is not None else None
    elif t == "|":
        ls = {fixed_len(y) for y in k[1]}
        r = ls.pop() if len(ls) == 1 else None
    elif t == "&":
        ls = {fixed_len(y) for y in k[1]} - {None}
        r = ls.pop() if len(ls) == 1 else None
    elif t == "{":
        a = fixed_len(k[1])
        r = a * k[2] if a is not None and k[2] == k[3] else None
    _flen[x] = r
    return r


def disjoint_chars(a, b):
    return not any(x0 <= y1 and y0 <= x1 for x0, x1 in a for y0, y1 in b)


# ------------------------------------------------------------------------------------ from solver terms
_conv: dict = {}


def pystr(e):
    from . import sym as S
    return S.zstr(e)


def of_re(r):
    key = r.get_id()
    hit = _conv.get(key)
    if hit is not None and hit[0].eq(r):
        return hit[1]
    k = r.decl().kind()
    ch = r.children()
    if k == z3.Z3_OP_SEQ_TO_RE:
        if not z3.is_string_value(ch[0]):
            raise ValueError
        out = lit(pystr(ch[0]))
    elif k == z3.Z3_OP_RE_RANGE:
        out = cls([(ord(pystr(ch[0])), ord(pystr(ch[1])))])
    elif k == z3.Z3_OP_RE_UNION:
        out = alt(*[of_re(c) for c in ch])
    elif k == z3.Z3_OP_RE_CONCAT:
        out = cats([of_re(c) for c in ch])
    elif k == z3.Z3_OP_RE_STAR:
        out = star(of_re(ch[0]))
    elif k == z3.Z3_OP_RE_PLUS:
        a = of_re(ch[0])
        out = cat(a, star(a))
    elif k == z3.Z3_OP_RE_OPTION:
        out = alt(EPS, of_re(ch[0]))
    elif k == z3.Z3_OP_RE_LOOP:
        ps = r.decl().params()
        out = loop(of_re(ch[0]), ps[0], ps[1] if len(ps) > 1 else None)
    elif k == z3.Z3_OP_RE_INTERSECT:
        out = inter(*[of_re(c) for c in ch])
    elif k == z3.Z3_OP_RE_COMPLEMENT:
        out = neg(of_re(ch[0]))
    elif k == z3.Z3_OP_RE_EMPTY_SET:
        out = EMPTY
    elif k == z3.Z3_OP_RE_FULL_SET:
        out = FULL
    elif k == getattr(z3, "Z3_OP_RE_FULL_CHAR_SET", -1):
        out = ANY
    else:
        raise ValueError
    _conv[key] = (r, out)
    return out


def is_str(e):
    return z3.is_string(e)


def pieces(e):
    """Flattened concatenation."""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for c in e.children():
            out += pieces(c)
        return out
    return [e]


_relevant: dict = {}


def relevant(e):
    """Does the formula speak about strings in a way understood here?"""
    k = e.get_id()
    hit = _relevant.get(k)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    r = False
    if z3.is_app(e):
        d = e.decl().kind()
        if d in (z3.Z3_OP_SEQ_IN_RE, z3.Z3_OP_SEQ_CONTAINS, z3.Z3_OP_SEQ_PREFIX, z3.Z3_OP_SEQ_SUFFIX, z3.Z3_OP_SEQ_LENGTH):
            r = True
        elif d == z3.Z3_OP_EQ and is_str(e.arg(0)):
            r = True
        elif z3.is_bool(e) or z3.is_int(e):
            r = any(relevant(c) for c in e.children())
    if len(_relevant) > 200000:
        _relevant.clear()
    _relevant[k] = (e, r)
    return r


def _len_term(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SEQ_LENGTH:
        return e.arg(0)
    return None


class Facts:
    """Conjunction of string literals."""

    def __init__(self):
        self.parent: dict = {}
        self.term: dict = {}
        self.langs: dict = {}
        self.defs: dict = {}
        self.neq = []
        self.memo = None
        self.contradiction = False

    def copy(self):
        f = Facts()
        f.parent, f.term = dict(self.parent), dict(self.term)
        f.langs = {k: list(v) for k, v in self.langs.items()}
        f.defs = {k: list(v) for k, v in self.defs.items()}
        f.contradiction = self.contradiction
        f.neq = list(self.neq)
        return f

    def node(self, t):
        k = t.get_id()
        if k not in self.term:
            self.term[k] = t
            self.parent[k] = k
            if z3.is_string_value(t):
                self.langs[k] = [lit(pystr(t))]
            elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                self.defs[k] = [t]
            elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                self.defs[k] = [t]
        return self.find(k)

    def find(self, k):
        while self.parent[k] != k:
            k = self.parent[k]
        return k

    def union(self, a, b):
        a, b = self.node(a), self.node(b)
        if a == b:
            return
        self.parent[b] = a
        self.langs[a] = self.langs.get(a, []) + self.langs.pop(b, [])
        self.defs[a] = self.defs.get(a, []) + self.defs.pop(b, [])

    def constrain(self, t, lang):
        k = self.node(t)
        self.langs.setdefault(k, []).append(lang)

    def add(self, e, pos=True):
        """Add a conjunct; whatever is not understood is dropped (over-approximation)."""
        if not relevant(e):
            if z3.is_false(e) and pos or z3.is_true(e) and not pos:
                self.contradiction = True
            return
        k = e.decl().kind()
        ch = e.children()
        try:
            if k == z3.Z3_OP_NOT:
                self.add(ch[0], not pos)
            elif k == z3.Z3_OP_AND and pos or k == z3.Z3_OP_OR and not pos:
                for c in ch:
                    self.add(c, pos)
            elif k == z3.Z3_OP_IMPLIES and not pos:
                self.add(ch[0], True)
                self.add(ch[1], False)
            elif k == z3.Z3_OP_SEQ_IN_RE:
                r = of_re(ch[1])
                self.constrain(ch[0], r if pos else neg(r))
            elif k == z3.Z3_OP_EQ and is_str(ch[0]):
                if pos:
                    self.union(ch[0], ch[1])
                else:
                    val = False
                    for a, b in ((ch[0], ch[1]), (ch[1], ch[0])):
                        if z3.is_string_value(b):
                            val = True
                            self.constrain(a, neg(lit(pystr(b))))
                    if ch[0].eq(ch[1]):
                        self.contradiction = True
                    if not val:
                        self.neq.append((ch[0], ch[1]))
            elif k == z3.Z3_OP_SEQ_CONTAINS:
                if z3.is_string_value(ch[1]):
                    r = cats([FULL, lit(pystr(ch[1])), FULL])
                    self.constrain(ch[0], r if pos else neg(r))
            elif k == z3.Z3_OP_SEQ_PREFIX:
                if z3.is_string_value(ch[0]):
                    r = cat(lit(pystr(ch[0])), FULL)
                    self.constrain(ch[1], r if pos else neg(r))
            elif k == z3.Z3_OP_SEQ_SUFFIX:
                if z3.is_string_value(ch[0]):
                    r = cat(FULL, lit(pystr(ch[0])))
                    self.constrain(ch[1], r if pos else neg(r))
            elif k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
                a, b = ch
                op = {z3.Z3_OP_EQ: "=", z3.Z3_OP_LE: "<=", z3.Z3_OP_GE: ">=", z3.Z3_OP_LT: "<", z3.Z3_OP_GT: ">"}[k]
                t = _len_term(a)
                if t is None or not z3.is_int_value(b):
                    t = _len_term(b)
                    if t is None or not z3.is_int_value(a):
                        return
                    a, b = b, a
                    op = {"=": "=", "<=": ">=", ">=": "<=", "<": ">", ">": "<"}[op]
                n = b.as_long()
                if op == "<":
                    op, n = "<=", n - 1
                if op == ">":
                    op, n = ">=", n + 1
                if n > 100000:
                    return
                if op == "=":
                    r = loop(ANY, n, n) if n >= 0 else EMPTY
                elif op == "<=":
                    r = loop(ANY, 0, n) if n >= 0 else EMPTY
                else:
                    r = loop(ANY, max(n, 0), None)
                if n > 600:
                    return
                self.constrain(t, r if pos else neg(r))
        except (ValueError, TypeError):
            return

    def lang(self, t, busy=()):
        """An over-approximation of the values of a term."""
        k = t.get_id()
        if k not in self.term:
            if z3.is_string_value(t):
                return lit(pystr(t))
            ps = pieces(t)
            if len(ps) > 1:
                return cats([self.lang(p, busy) for p in ps])
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                return alt(self.lang(t.arg(1), busy), self.lang(t.arg(2), busy))
            return FULL
        k = self.find(k)
        if k in busy:
            return FULL
        if self.memo is not None and k in self.memo:
            return self.memo[k]
        busy = busy + (k,)
        parts = list(self.langs.get(k, ()))
        for d in self.defs.get(k, ()):
            if d.decl().kind() == z3.Z3_OP_ITE:
                parts.append(alt(self.lang(d.arg(1), busy), self.lang(d.arg(2), busy)))
            else:
                parts.append(cats([self.lang(p, busy) for p in pieces(d)]))
        r = inter(*parts) if parts else FULL
        if self.memo is not None and len(busy) == 1:
            self.memo[k] = r
        return r

    def unsat(self):
        if self.contradiction:
            return True
        self.memo = {}
        for k in list(self.term):
            if self.find(k) != k:
                continue
            if len(self.langs.get(k, ())) + len(self.defs.get(k, ())) < 1:
                continue
            l = self.lang(self.term[k])
            if is_empty(l) is True:
                return True
        for a, b in self.neq:
            if self.node(a) == self.node(b):
                return True
        return False


def dnf(e, pos, limit=24):
    """Disjunction of conjunctions (lists of (formula, polarity))."""
    if z3.is_app(e) and z3.is_bool(e):
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_NOT:
            return dnf(ch[0], not pos, limit)
        if k == z3.Z3_OP_IMPLIES:
            return dnf(z3.Or(z3.Not(ch[0]), ch[1]), pos, limit)
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            disj = (k == z3.Z3_OP_OR) == pos
            subs = [dnf(c, pos, limit) for c in ch]
            if disj:
                out = [x for s in subs for x in s]
                return out if len(out) <= limit else [[(e, pos)]]
            out = [[]]
            for s in subs:
                out = [a + b for a in out for b in s]
                if len(out) > limit:
                    return [[(e, pos)]]
            return out
        if k == z3.Z3_OP_EQ and z3.is_bool(ch[0]):
            a, b = ch
            if pos:
                return dnf(z3.Or(z3.And(a, b), z3.And(z3.Not(a), z3.Not(b))), True, limit)
            return dnf(z3.Or(z3.And(a, z3.Not(b)), z3.And(z3.Not(a), b)), True, limit)
    return [[(e, pos)]]


class AList(list):
    """A list of assertions that remembers the facts gathered from its first `done` elements."""
    facts = None
    done = 0

    def cut(self, n):
        del self[n:]
        if self.done > n:
            self.facts, self.done = None, 0


def base_facts(assertions):
    keep = isinstance(assertions, AList)
    if keep and assertions.facts is not None:
        f, clauses = assertions.facts
        todo = assertions[assertions.done:]
    else:
        f, clauses, todo = Facts(), [], assertions
    if keep:
        assertions.facts, assertions.done = (f, clauses), len(assertions)
    for a in todo:
        if relevant(a):
            f.add(a)
            k = a.decl().kind()
            if k == z3.Z3_OP_OR or k == z3.Z3_OP_IMPLIES or k == z3.Z3_OP_EQ and z3.is_bool(a.arg(0)):
                clauses.append(a)
    return f, clauses


def refuted(assertions, query):
    """Is query (a formula) inconsistent with the assertions, by regular-language reasoning alone?"""
    f, clauses = base_facts(assertions)
    for conj in dnf(query, True):
        g = f.copy()
        for e, p in conj:
            g.add(e, p)
        if g.unsat():
            continue
        # one round of unit propagation through the disjunctive assertions
        changed = False
        for c in clauses[-40:]:
            live = []
            for d in dnf(c, True, 8):
                h = g.copy()
                for e, p in d:
                    h.add(e, p)
                if not h.unsat():
                    live.append(d)
                if len(live) > 1:
                    break
            if not live:
                changed = None
                break
            if len(live) == 1:
                for e, p in live[0]:
                    g.add(e, p)
                changed = True
        if changed is None or changed and g.unsat():
            continue
        return False
    return True
