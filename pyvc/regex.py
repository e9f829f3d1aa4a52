"""Python regular expressions -> z3 regular expressions (boolean matching only)."""
import re
try:
    import re._parser as sp
    import re._constants as sc
except ImportError:  # pragma: no cover
    import sre_parse as sp
    import sre_constants as sc
import z3

from .values import sval

S = z3.StringSort()
ANY = z3.AllChar(z3.ReSort(S))
FULL = z3.Full(z3.ReSort(S))


class No(Exception):
    pass


def ch(c):
    return z3.Re(sval(chr(c)))


def rng(a, b):
    return z3.Range(sval(chr(a)), sval(chr(b))) if a != b else ch(a)


def union(xs):
    xs = list(xs)
    return xs[0] if len(xs) == 1 else z3.Union(*xs)


def cls(items):
    neg = False
    out = []
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            out.append(ch(av))
        elif op is sc.RANGE:
            out.append(rng(*av))
        elif op is sc.CATEGORY:
            if av is sc.CATEGORY_SPACE:
                out.append(union([ch(x) for x in (9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xA0)]))
            else:
                raise No()
        else:
            raise No()
    r = union(out)
    if neg:
        r = z3.Intersect(z3.Complement(r), ANY)
    return r


def seq(p):
    rs = []
    for op, av in p:
        rs.append(one(op, av))
    if not rs:
        return z3.Re("")
    return rs[0] if len(rs) == 1 else z3.Concat(*rs)


def one(op, av):
    if op is sc.LITERAL:
        return ch(av)
    if op is sc.NOT_LITERAL:
        return z3.Intersect(z3.Complement(ch(av)), ANY)
    if op is sc.ANY:
        return z3.Intersect(z3.Complement(ch(10)), ANY)
    if op is sc.IN:
        return cls(av)
    if op is sc.SUBPATTERN:
        return seq(av[3])
    if op is sc.BRANCH:
        return union([seq(b) for b in av[1]])
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, sub = av
        r = seq(sub)
        if hi is sc.MAXREPEAT:
            if lo == 0:
                return z3.Star(r)
            if lo == 1:
                return z3.Plus(r)
            return z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
        return z3.Loop(r, lo, hi) if hi else z3.Re("")
    raise No()


def translate(pat, which):
    """z3 Re for: re.<which>(pat, s) is not None; None when not expressible"""
    try:
        p = list(sp.parse(pat))
    except re.error:
        return None
    try:
        start = which == "search"
        end = True
        pre = []
        if p and p[0][0] is sc.AT and p[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            p = p[1:]
            start = False
        tail = FULL if which != "fullmatch" else None
        if p and p[-1][0] is sc.AT:
            if p[-1][1] is sc.AT_END:
                tail = z3.Option(ch(10)) if which != "fullmatch" else None
                p = p[:-1]
            elif p[-1][1] is sc.AT_END_STRING:
                tail = None
                p = p[:-1]
            else:
                return None
        r = seq(p)
        if start:
            r = z3.Concat(FULL, r)
        if tail is not None:
            r = z3.Concat(r, tail)
        return r
    except No:
        return None


def group(pat, n):
    """the contents of group n when it takes part in every match, else None"""
    try:
        p = sp.parse(pat)
    except re.error:
        return None

    def walk(items):
        for op, av in items:
            if op is sc.SUBPATTERN:
                if av[0] == n:
                    return list(av[3])
                r = walk(av[3])
                if r is not None:
                    return r
        return None

    return list(p) if n == 0 else walk(p)


def digits(sub):
    return (len(sub) == 1 and sub[0][0] is sc.MAX_REPEAT and sub[0][1][0] >= 1
            and list(sub[0][1][2]) == [(sc.IN, [(sc.CATEGORY, sc.CATEGORY_DIGIT)])])
