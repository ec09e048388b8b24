"""Python regular expressions over symbolic strings, translated to the solver's regular expressions."""
from __future__ import annotations

import re
import re._constants as C
import re._parser as P

import z3

from . import lang as L

from . import sym as S
from .sym import SStr, Unsupported, mkbool, mkstr, strexpr, sval

MAXC = 0x2FFFF
_cls_cache: dict = {}


def _ranges_of(pred):
    out = []
    start = None
    for o in range(MAXC + 2):
        ok = o <= MAXC and pred(chr(o))
        if ok and start is None:
            start = o
        elif not ok and start is not None:
            out.append((start, o - 1))
            start = None
    return out


def class_ranges(cat, ascii_only):
    key = (cat, ascii_only)
    if key not in _cls_cache:
        pat = {C.CATEGORY_DIGIT: r"\d", C.CATEGORY_SPACE: r"\s", C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_DIGIT: r"\D",
               C.CATEGORY_NOT_SPACE: r"\S", C.CATEGORY_NOT_WORD: r"\W"}[cat]
        r = re.compile(pat, re.A if ascii_only else 0)
        _cls_cache[key] = _ranges_of(lambda ch: r.match(ch) is not None)
    return _cls_cache[key]


def zch(o):
    return sval(chr(o))


def range_re(lo, hi):
    if lo == hi:
        return z3.Re(zch(lo))
    return z3.Range(zch(lo), zch(hi))


def union(rs):
    rs = list(rs)
    if not rs:
        return z3.Empty(z3.ReSort(z3.StringSort()))
    if len(rs) == 1:
        return rs[0]
    return z3.Union(*rs)


def complement(ranges):
    out, pos = [], 0
    for lo, hi in sorted(ranges):
        if lo > pos:
            out.append((pos, lo - 1))
        pos = max(pos, hi + 1)
    if pos <= MAXC:
        out.append((pos, MAXC))
    return out


def _case(ranges):
    out = list(ranges)
    for lo, hi in ranges:
        if hi - lo > 200:
            continue
        for o in range(lo, hi + 1):
            for ch in (chr(o).lower(), chr(o).upper()):
                if len(ch) == 1 and ord(ch) <= MAXC:
                    out.append((ord(ch), ord(ch)))
    return out


ANY = None


def allchar():
    return z3.AllChar(z3.ReSort(z3.StringSort()))


def empty_str():
    return z3.Re(z3.StringVal(""))


class Anchor(Exception):
    pass


class Tr:
    """Translate a parsed pattern; `capture` yields (regex, group number) segments for top-level splitting."""

    def __init__(self, flags):
        self.flags = flags
        self.ascii = bool(flags & re.A)
        self.icase = bool(flags & re.I)

    def chars(self, items):
        neg = False
        rs = []
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                rs.append((av, av))
            elif op is C.RANGE:
                rs.append(tuple(av))
            elif op is C.CATEGORY:
                rs += class_ranges(av, self.ascii)
            else:
                raise Unsupported(f"regex class item {op}")
        if self.icase:
            rs = _case(rs)
        rs = [(lo, min(hi, MAXC)) for lo, hi in rs if lo <= MAXC]
        if neg:
            rs = complement(rs)
        return union(range_re(lo, hi) for lo, hi in _merge(rs))

    def seq(self, items):
        parts = [self.one(op, av) for op, av in items]
        return concat(parts)

    def one(self, op, av):
        if op is C.LITERAL:
            if self.icase:
                return self.chars([(C.LITERAL, av)])
            return z3.Re(zch(av))
        if op is C.NOT_LITERAL:
            return self.chars([(C.NEGATE, None), (C.LITERAL, av)])
        if op is C.IN:
            return self.chars(av)
        if op is C.ANY:
            return allchar() if self.flags & re.S else self.chars([(C.NEGATE, None), (C.LITERAL, 10)])
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, getattr(C, "POSSESSIVE_REPEAT", None)):
            lo, hi, sub = av
            r = self.seq(sub)
            if hi is C.MAXREPEAT or hi == C.MAXREPEAT:
                if lo == 0:
                    return z3.Star(r)
                if lo == 1:
                    return z3.Plus(r)
                return z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
            if lo == 0 and hi == 1:
                return z3.Option(r)
            return z3.Loop(r, lo, hi)
        if op is C.SUBPATTERN:
            return self.seq(av[3])
        if op is C.BRANCH:
            return union(self.seq(x) for x in av[1])
        if op is C.AT:
            raise Anchor()
        raise Unsupported(f"regex construct {op}")


def _merge(rs):
    out = []
    for lo, hi in sorted(rs):
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return out


def concat(parts):
    if not parts:
        return empty_str()
    if len(parts) == 1:
        return parts[0]
    return z3.Concat(*parts)


class Parsed:
    def __init__(self, pattern, flags):
        p = P.parse(pattern, flags)
        self.flags = p.state.flags
        self.groups = p.state.groups
        self.groupdict = dict(p.state.groupdict)
        items = list(p)
        self.start = self.end = None
        while items and items[0][0] is C.AT:
            self.start = items.pop(0)[1]
        if items and items[-1][0] is C.AT:
            self.end = items.pop()[1]
        self.items = items
        self.tr = Tr(self.flags)
        self.segments = self._segments(items)

    def _segments(self, items):
        """(regex, group or None) pieces whose concatenation is the pattern; None when groups nest in repeats/branches."""
        out = []
        cur = []

        def has_group(x):
            op, av = x
            if op is C.SUBPATTERN:
                return av[0] is not None or any(has_group(y) for y in av[3])
            if op in (C.MAX_REPEAT, C.MIN_REPEAT):
                return any(has_group(y) for y in av[2])
            if op is C.BRANCH:
                return any(has_group(y) for b in av[1] for y in b)
            return False

        def add(items):
            nonlocal cur
            for x in items:
                op, av = x
                if op is C.SUBPATTERN and av[0] is not None:
                    if any(has_group(y) for y in av[3]):
                        return False
                    if cur:
                        out.append((self.tr.seq(cur), None))
                        cur = []
                    out.append((self.tr.seq(list(av[3])), av[0]))
                elif op in (C.MAX_REPEAT,) and tuple(av[:2]) == (0, 1) and len(av[2]) == 1 and has_group(x):
                    # optional group
                    sub = av[2][0]
                    if not (sub[0] is C.SUBPATTERN):
                        return False
                    if cur:
                        out.append((self.tr.seq(cur), None))
                        cur = []
                    out.append(("opt", sub))
                elif has_group(x):
                    return False
                else:
                    cur.append(x)
            return True

        ok = add(items)
        if cur:
            out.append((self.tr.seq(cur), None))
        return out if ok else None

    def core(self):
        return self.tr.seq(self.items)


_pcache: dict = {}


def parsed(pattern, flags=0):
    k = (pattern, flags)
    if k not in _pcache:
        _pcache[k] = Parsed(pattern, flags)
    return _pcache[k]


class SMatch:
    """A successful match of a symbolic string."""

    def __init__(self, whole, groups, p, string=None, pattern=None):
        self.whole, self.grps, self.p, self.string, self.re, self.pos = whole, groups, p, string, pattern, 0

    def __getattr__(self, name):
        if name not in ("start", "end", "span", "expand", "lastindex", "lastgroup", "regs", "endpos"):
            raise AttributeError(name)
        raise Unsupported(f"{name} of a match of a symbolic text")

    def _get(self, g):
        if isinstance(g, str):
            g = self.p.groupdict[g]
        if g == 0:
            return self.whole
        if g not in self.grps:
            raise Unsupported(f"group {g} of a symbolic match")
        return self.grps[g]

    def group(self, *gs):
        if not gs:
            return self.whole
        r = tuple(self._get(g) for g in gs)
        return r[0] if len(r) == 1 else r

    def groups(self, default=None):
        return tuple(self._get(i) if self._get(i) is not None else default for i in range(1, self.p.groups))

    def groupdict(self, default=None):
        return {n: self._get(i) for n, i in self.p.groupdict.items()}

    def __getitem__(self, g):
        return self._get(g)

    def __bool__(self):
        return True


def match_expr(p, e, mode):
    """InRe formula for mode match/fullmatch/search."""
    core = p.core()
    anyseq = z3.Star(allchar())
    pre = [] if (mode in ("match", "fullmatch") or p.start is not None) else [anyseq]
    if mode == "fullmatch":
        post = []
    elif p.end is None:
        post = [anyseq]
    elif p.end is C.AT_END_STRING:
        post = []
    elif p.end is C.AT_END:
        post = [z3.Option(z3.Re(z3.StringVal("\\u{a}")))]
    else:
        raise Unsupported("regex anchor")
    return z3.InRe(e, concat(pre + [core] + post))


def rope(e):
    """(pieces of a string, facts about them)"""
    f, _ = L.base_facts(S.E.solver.assertions())
    ps = L.pieces(e)
    for _ in range(3):
        out, changed = [], False
        for x in ps:
            d = None
            if not z3.is_string_value(x) and x.get_id() in f.term:
                k = f.find(x.get_id())
                for y in f.defs.get(k, ()):
                    if y.decl().kind() == z3.Z3_OP_SEQ_CONCAT and not y.eq(x):
                        d = y
                if d is None:
                    for t in f.term:
                        if f.find(t) == k and z3.is_string_value(f.term[t]):
                            d = f.term[t]
            if d is not None:
                out += L.pieces(d)
                changed = True
            else:
                out.append(x)
        ps = out
        if not changed:
            break
    return [x for x in ps if not (z3.is_string_value(x) and S.zstr(x) == "")], f


def rope_cat(ps):
    return z3.StringVal("") if not ps else ps[0] if len(ps) == 1 else z3.Concat(*ps)


def rope_split(e, sep, mx=-1, blanks=""):
    """Split at a one-character separator, when every piece of the string is a literal or provably free of it."""
    ps, f = rope(e)
    has = L.cats([L.FULL, L.lit(sep), L.FULL])
    parts, cur = [], []
    for x in ps:
        if z3.is_string_value(x):
            t = S.zstr(x)
            if not (mx >= 0 and len(parts) >= mx):
                bits = t.split(sep, mx - len(parts) if mx >= 0 else -1)
                for b in bits[:-1]:
                    if b:
                        cur.append(sval(b))
                    parts.append(cur)
                    cur = []
                t = bits[-1]
            if t:
                cur.append(sval(t))
        else:
            if not (mx >= 0 and len(parts) >= mx) and L.is_empty(L.inter(f.lang(x), has)) is not True:
                return None
            cur.append(x)
    parts.append(cur)
    if blanks:
        front = L.cat(L.cls([(ord(b), ord(b)) for b in blanks]), L.FULL)
        back = L.cat(L.FULL, L.cls([(ord(b), ord(b)) for b in blanks]))
        out = []
        for i, q in enumerate(parts):
            # blanks next to a separator belong to it
            while i > 0 and q and z3.is_string_value(q[0]) and S.zstr(q[0])[:1] in set(blanks):
                t = S.zstr(q[0]).lstrip(blanks)
                q = ([sval(t)] if t else []) + q[1:]
                if t:
                    break
            while i < len(parts) - 1 and q and z3.is_string_value(q[-1]) and S.zstr(q[-1])[-1:] in set(blanks):
                t = S.zstr(q[-1]).rstrip(blanks)
                q = q[:-1] + ([sval(t)] if t else [])
                if t:
                    break
            l = L.cats([f.lang(x) for x in q])
            if i > 0 and L.is_empty(L.inter(l, front)) is not True or i < len(parts) - 1 and L.is_empty(L.inter(l, back)) is not True:
                return None
            out.append(q)
        parts = out
    return [mkstr(rope_cat(q)) for q in parts]


def rope_strip(e, cls, how):
    """strip/lstrip/rstrip where the text provably has nothing to strip left and right of its literal ends."""
    ps, f = rope(e)
    try:
        c = L.of_re(cls)
    except ValueError:
        return None
    chars = L.first_chars(c)

    def hit(ch):
        return any(lo <= ord(ch) <= hi for lo, hi in chars)

    ps = list(ps)
    if how != "rstrip":
        while ps and z3.is_string_value(ps[0]):
            t = S.zstr(ps[0])
            k = 0
            while k < len(t) and hit(t[k]):
                k += 1
            if k < len(t):
                ps[0] = sval(t[k:])
                break
            del ps[0]
    if how != "lstrip":
        while ps and z3.is_string_value(ps[-1]):
            t = S.zstr(ps[-1])
            k = len(t)
            while k > 0 and hit(t[k - 1]):
                k -= 1
            if k > 0:
                ps[-1] = sval(t[:k])
                break
            del ps[-1]
    l = L.cats([f.lang(x) for x in ps])
    if how != "rstrip" and L.is_empty(L.inter(l, L.cat(c, L.FULL))) is not True:
        return None
    if how != "lstrip" and L.is_empty(L.inter(l, L.cat(L.FULL, c))) is not True:
        return None
    return mkstr(rope_cat(ps))


def _greedy(items):
    """No alternatives and no lazy repeats: the longest possibility is preferred."""
    for op, av in items:
        if op in (C.MIN_REPEAT, C.BRANCH):
            return False
        if op is C.SUBPATTERN and not _greedy(av[3]):
            return False
        if op is C.MAX_REPEAT and not _greedy(av[2]):
            return False
    return True


def align(p, e, segs, mode):
    """The groups of a match of a concatenation whose pieces line up with the pattern, provided that is the only (or preferred) parse."""
    if not (mode in ("match", "fullmatch") or p.start is not None):
        return None
    if mode != "fullmatch" and p.end is None:
        return None
    ps, f = rope(e)
    if len(ps) < 2:
        return None
    try:
        langs = [None if isinstance(rx, str) else L.of_re(rx) for rx, g in segs]
    except ValueError:
        return None
    if mode != "fullmatch" and p.end is C.AT_END:
        nl = L.cat(L.FULL, L.lit("\n"))
        if L.is_empty(L.inter(L.cats([f.lang(x) for x in ps]), nl)) is not True:
            return None
    inner = {}
    for i, (rx, g) in enumerate(segs):
        if isinstance(rx, str):
            sub = g
            it = Parsed.__new__(Parsed)
            it.tr = p.tr
            isegs = Parsed._segments(it, list(sub[1][3]))
            if isegs is None or any(isinstance(r, str) for r, _ in isegs):
                return None
            inner[i] = (sub[1][0], isegs)
            try:
                langs[i] = L.alt(L.EPS, L.cats([L.of_re(r) for r, _ in isegs]))
            except ValueError:
                return None

    def after(i):
        return L.cats(langs[i + 1:])

    def lang_of(q):
        return L.cats([f.lang(x) for x in q])

    def go(i, rest, acc):
        if i == len(segs):
            return acc if not rest else None
        for k in range(len(rest), -1, -1):
            opts = [(rest[:k], rest[k:])]
            if k < len(rest) and z3.is_string_value(rest[k]):
                t = S.zstr(rest[k])
                opts = [(rest[:k] + [sval(t[:j])], [sval(t[j:])] + rest[k + 1:]) for j in range(len(t) - 1, 0, -1)] + opts
            for take, left in opts:
                if L.subset(lang_of(take), langs[i]):
                    r = go(i + 1, left, acc + [take])
                    if r is not None:
                        return r
        return None

    al = go(0, ps, [])
    if al is None:
        return None
    for i in range(len(segs)):
        if L.fixed_len(langs[i]) is not None:
            continue
        rest = after(i)
        if rest == L.EPS:
            continue
        if L.disjoint_chars(L.later_chars(langs[i]), L.first_chars(rest)):
            continue
        if all(not al[j] for j in range(i + 1, len(segs))) and _greedy(p.items):
            continue
        if all(not al[j] for j in range(i + 1, len(segs))) and L.is_empty(L.inter(lang_of(al[i]), L.cat(langs[i], L.inter(rest, L.neg(L.EPS))))) is True:
            continue
        if not al[i] and L.disjoint_chars(L.first_chars(langs[i]), L.first_chars(lang_of([x for q in al[i + 1:] for x in q]))):
            continue
        return None
    groups = {}
    for i, (rx, g) in enumerate(segs):
        if i in inner:
            num, isegs = inner[i]
            if len(isegs) == 1:
                if not al[i]:
                    groups[num] = None
                    if isegs[0][1]:
                        groups[isegs[0][1]] = None
                else:
                    groups[num] = mkstr(rope_cat(al[i]))
                    if isegs[0][1]:
                        groups[isegs[0][1]] = groups[num]
            else:
                return None
            if not al[i] and L.nullable(L.of_re(isegs[0][0])):
                return None
        elif g:
            groups[g] = mkstr(rope_cat(al[i]))
    return groups


def do_match(pattern, flags, s, mode):
    """Returns None or SMatch, forking on whether it matches."""
    E = S.E
    p = parsed(pattern, flags)
    e = strexpr(s)
    if not E.branch(match_expr(p, e, mode)):
        return None
    # decompose
    segs = p.segments
    if segs is None:
        return SMatch(SStr(z3.String(E.name("match"))), {}, p, s)
    al = align(p, e, segs, mode)
    if al is not None:
        return SMatch(mkstr(e), al, p, s)
    parts = []
    groups = {}

    def var(rx, nm):
        x = z3.String(E.name(nm))
        E.solver.add(z3.InRe(x, rx))
        parts.append(x)
        return x

    if mode == "search" and p.start is None:
        pre = z3.String(E.name("pre"))
        parts.append(pre)
        whole_from = 1
    else:
        whole_from = 0
    for rx, g in segs:
        if isinstance(rx, str):  # optional group
            sub = g
            num, body = sub[1][0], list(sub[1][3])
            if E.choose(2) == 0:
                # present
                inner = Parsed.__new__(Parsed)
                inner.tr = p.tr
                isegs = Parsed._segments(inner, body)
                if isegs is None or any(isinstance(r, str) for r, _ in isegs):
                    raise Unsupported("nested optional groups")
                start = len(parts)
                for r2, g2 in isegs:
                    x = var(r2, f"g{g2 or ''}")
                    if g2:
                        groups[g2] = mkstr(x)
                if num is not None:
                    pp = parts[start:]
                    groups[num] = mkstr(pp[0] if len(pp) == 1 else z3.Concat(*pp))
            else:
                if num is not None:
                    groups[num] = None

                def mark(items):
                    for op, av in items:
                        if op is C.SUBPATTERN:
                            if av[0] is not None:
                                groups[av[0]] = None
                            mark(av[3])
                mark(body)
        else:
            x = var(rx, f"g{g or ''}")
            if g:
                groups[g] = mkstr(x)
    whole_parts = parts[whole_from:]
    whole = z3.StringVal("") if not whole_parts else whole_parts[0] if len(whole_parts) == 1 else z3.Concat(*whole_parts)
    tail = []
    if mode != "fullmatch":
        if p.end is None:
            tail = [z3.String(E.name("post"))]
        elif p.end is C.AT_END:
            t = z3.String(E.name("post"))
            E.solver.add(z3.Or(t == z3.StringVal(""), t == z3.StringVal("\\u{a}")))
            tail = [t]
    allp = parts + tail
    E.solver.add(e == (z3.StringVal("") if not allp else allp[0] if len(allp) == 1 else z3.Concat(*allp)))
    if not E._sat():
        raise S.PathEnd()
    return SMatch(mkstr(whole), groups, p, s)
