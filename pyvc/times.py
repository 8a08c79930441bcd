"""Assumed contracts of the standard library's calendar types (datetime, timedelta, fixed-offset tzinfo, Fraction) and
regular expressions over digit text.

A symbolic datetime is its wall-clock time in microseconds since 0001-01-01T00:00 (mathematical integer) with its tzinfo
(None or a token with a constant utcoffset).  The proleptic Gregorian calendar is written out as linear integer
arithmetic; nothing is sampled."""
import ast
import re
from datetime import datetime, date, timedelta, tzinfo
from fractions import Fraction
import z3

from .values import *  # noqa
from .values import simp, addz
from .solver import bound
from .interp import PyRaise, MISSING, is_concrete

DAY = 86400 * 10**6
D2000 = 730485 * DAY
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]


def I(v):
    z = zi(v)
    return z3.IntVal(z) if isinstance(z, int) else bound(z)


def year_start(y):
    """microseconds from year 1 to the start of year y (any integer y: the proleptic calendar)"""
    if isinstance(y, int):
        p = y - 1
        return (365 * p + p // 4 - p // 100 + p // 400) * DAY
    p = y - 1
    return (365 * p + p / 4 - p / 100 + p / 400) * DAY


MAXUS = year_start(10000)


def leap(y):
    if isinstance(y, int):
        return z3.BoolVal(y % 4 == 0 and (y % 100 != 0 or y % 400 == 0))
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


def month_start(m, lp):
    """days from the start of the year to the start of month m"""
    r = z3.IntVal(CUM[11])
    for k in range(11, 0, -1):
        r = z3.If(m == k, z3.IntVal(CUM[k - 1]), r)
    return r + z3.If(z3.And(m > 2, lp), 1, 0)


def month_days(m, lp):
    return z3.If(m == 2, z3.If(lp, 29, 28), z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), 30, 31))


class STD(object):
    """timedelta of us microseconds"""
    _pyvc_type = timedelta
    LIMIT = 10**9 * DAY

    def __init__(self, us):
        self.us = simp(us) if not isinstance(us, int) else us

    def __repr__(self):
        return 'STD(%s)' % (self.us,)

    def pyvc_getattr(self, it, name):
        raise Unsupported('timedelta.%s' % name)

    def pyvc_binop(self, it, op, y, d):
        if op in (ast.Add, ast.Sub):
            u = td_us(y)
            if u is None:
                if isinstance(y, datetime):
                    return lift(it, y).pyvc_binop(it, op, self, 1 - d)
                return MISSING
            a, b = (self.us, u) if d == 0 else (u, self.us)
            return mktd(it, a + b if op is ast.Add else a - b)
        if op is ast.Mult and isinstance(y, (int, SInt)):
            return mktd(it, self.us * zi(y))
        return MISSING

    def pyvc_neg(self, it):
        return mktd(it, -self.us if isinstance(self.us, int) else -I(self.us))

    def pyvc_cmp(self, it, op, y, rf):
        u = td_us(y)
        if u is None:
            raise PyRaise(TypeError('not comparable to timedelta'))
        a, b = (u, self.us) if rf else (self.us, u)
        a, b = I(a), I(b)
        return mkbool({ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op])

    def pyvc_eq(self, it, y):
        u = td_us(y)
        return NotImplemented if u is None else mkbool(I(self.us) == I(u))

    def sym_truth(self, it):
        return it.ctx.branch(I(self.us) != 0)


def td_us(v):
    if isinstance(v, STD):
        return v.us
    if isinstance(v, timedelta):
        return (v.days * 86400 + v.seconds) * 10**6 + v.microseconds
    return None


def mktd(it, us):
    us = simp(us) if not isinstance(us, int) else us
    # timedelta is limited to 10**9 days: results of the operations modelled here on values of the calendar stay inside
    if not isinstance(us, int):
        if not it.ctx.implied(z3.And(us > -STD.LIMIT, us < STD.LIMIT)):
            if not it.ctx.branch(z3.And(us > -STD.LIMIT, us < STD.LIMIT)):
                raise PyRaise(OverflowError('timedelta out of range'))
    return STD(us)


class STZ(object):
    """tzinfo with a constant utcoffset"""
    _pyvc_type = tzinfo

    def __init__(self, off, name='tz'):
        self.off = off
        self.name = name

    def __repr__(self):
        return '%s(%s)' % (self.name, self.off)

    def pyvc_getattr(self, it, name):
        if name == 'utcoffset':
            return Fn(lambda it, d: STD(self.off))
        raise Unsupported('tzinfo.%s' % name)

    def sym_truth(self, it):
        return True


def tz_off(t):
    """offset in microseconds of a tzinfo, or None for naive"""
    if t is None:
        return None
    if isinstance(t, STZ):
        return t.off
    o = t.utcoffset(datetime(2000, 1, 1))
    return None if o is None else td_us(o)


class Fn(object):
    _pyvc_type = type(lambda: 0)

    def __init__(self, f):
        self.f = f

    def pyvc_call(self, it, args, kwargs):
        return self.f(it, *args, **kwargs)


FIELDS = ('month', 'day', 'hour', 'minute', 'second', 'microsecond')


class SDT(object):
    """datetime"""
    _pyvc_type = datetime

    def __init__(self, it, us, tz=None, year=None, fields=None):
        self.us = us
        self.tz = tz
        self._year = year
        self._fields = fields

    def __repr__(self):
        return 'SDT(%s, %r)' % (self.us, self.tz)

    def off(self):
        return tz_off(self.tz)

    def year(self, it):
        if self._year is None:
            y = it.ctx.fresh_int('year', 1, 9999)
            it.ctx.fact(z3.And(year_start(y.z) <= I(self.us), I(self.us) < year_start(y.z + 1)))
            self._year = y
        return self._year

    def fields(self, it):
        if self._fields is None:
            c = it.ctx
            y = self.year(it)
            mo, d = c.fresh_int('month', 1, 12), c.fresh_int('day', 1, 31)
            h, mi, s, u = (c.fresh_int('hour', 0, 23), c.fresh_int('minute', 0, 59), c.fresh_int('second', 0, 59),
                           c.fresh_int('microsecond', 0, 999999))
            lp = leap(zi(y))
            c.fact(d.z <= month_days(mo.z, lp))
            c.fact(I(self.us) == fields_us(zi(y), mo.z, d.z, h.z, mi.z, s.z, u.z))
            self._fields = dict(zip(FIELDS, (mo, d, h, mi, s, u)))
        return self._fields

    def pyvc_getattr(self, it, name):
        if name == 'year':
            return self.year(it)
        if name in FIELDS:
            return self.fields(it)[name]
        if name == 'tzinfo':
            return self.tz
        if name == 'utcoffset':
            o = self.off()
            return Fn(lambda it: None if o is None else STD(o))
        if name == 'astimezone':
            return Fn(self.astimezone)
        if name == 'replace':
            return Fn(self.replace)
        if name == 'strftime':
            return Fn(self.strftime)
        raise Unsupported('datetime.%s' % name)

    def astimezone(self, it, tz):
        o = self.off()
        if o is None:
            raise Unsupported('astimezone of a naive datetime (system time zone)')
        return in_range(it, I(self.us) - I(o) + I(tz_off(tz)), tz)

    def replace(self, it, *args, **kw):
        names = ('year',) + FIELDS + ('tzinfo',)
        vals = dict(year=self.year(it), tzinfo=self.tz, **self.fields(it))
        vals.update(zip(names, args))
        vals.update(kw)
        return construct(it, **vals)

    def strftime(self, it, fmt):
        if not isinstance(fmt, str):
            raise Unsupported('symbolic strftime format')
        y = zi(self.year(it))
        f = self.fields(it)
        out = []
        for m in re.finditer(r'%(.)|([^%]+)', fmt):
            k = m.group(1)
            if not k:
                out.append(m.group(2))
            elif k == 'Y':
                out.append(SStr([DecText(y, 0)]))       # not padded on all platforms
            elif k == 'y':
                out.append(SStr([DecText(simp(y % 100), 2)]))
            elif k in 'mdHMS':
                out.append(SStr([DecText(f[dict(zip('mdHMS', FIELDS))[k]].z, 2)]))
            elif k == 'f':
                out.append(SStr([DecText(f['microsecond'].z, 6)]))
            elif k == '%':
                out.append('%')
            else:
                raise Unsupported('strftime %' + k)
        return it.models.str_concat(it, out)

    def pyvc_binop(self, it, op, y, d):
        u = td_us(y)
        if u is not None:
            if op is ast.Add:
                return in_range(it, I(self.us) + I(u), self.tz)
            if op is ast.Sub and d == 0:
                return in_range(it, I(self.us) - I(u), self.tz)
            return MISSING
        if op is ast.Sub and isinstance(y, (SDT, datetime)):
            y = lift(it, y)
            a, b = (self, y) if d == 0 else (y, self)
            return STD(a.diff(it, b))
        return MISSING

    def diff(self, it, other):
        o, p = self.off(), other.off()
        if (o is None) != (p is None):
            raise PyRaise(TypeError("can't subtract offset-naive and offset-aware datetimes"))
        r = I(self.us) - I(other.us)
        return simp(r if o is None else r - I(o) + I(p))

    def pyvc_cmp(self, it, op, y, rf):
        if not isinstance(y, (SDT, datetime)):
            return MISSING
        d = I(self.diff(it, lift(it, y)))
        if rf:
            d = -d
        return mkbool({ast.Lt: d < 0, ast.LtE: d <= 0, ast.Gt: d > 0, ast.GtE: d >= 0}[op])

    def pyvc_eq(self, it, y):
        if not isinstance(y, (SDT, datetime)):
            return NotImplemented
        y = lift(it, y)
        if (self.off() is None) != (y.off() is None):
            return False
        return mkbool(I(self.diff(it, y)) == 0)

    def pyvc_hash(self, it):
        """equal datetimes have equal hashes: an uninterpreted function of the instant (aware) or wall clock (naive)"""
        o = self.off()
        f = z3.Function('hash_naive' if o is None else 'hash_aware', z3.IntSort(), z3.IntSort())
        return mkint(f(I(self.us) if o is None else I(self.us) - I(o)))

    def sym_truth(self, it):
        return True


def lift(it, v):
    if isinstance(v, SDT):
        return v
    us = td_us(v.replace(tzinfo=None) - datetime(1, 1, 1))
    return SDT(it, us, v.tzinfo, v.year)


def in_range(it, us, tz):
    if not it.ctx.branch(z3.And(us >= 0, us < MAXUS)):
        raise PyRaise(OverflowError('date value out of range'))
    return SDT(it, simp(us), tz)


def fields_us(y, mo, d, h, mi, s, u):
    return year_start(y) + (month_start(I(mo), leap(y)) + I(d) - 1) * DAY + ((I(h) * 60 + I(mi)) * 60 + I(s)) * 10**6 + I(u)


def construct(it, year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, fold=0):
    c = it.ctx
    vals = (year, month, day, hour, minute, second, microsecond)
    for v in vals:
        if not isinstance(v, (int, SInt)):
            raise PyRaise(TypeError('an integer is required'))
    y, mo, d, h, mi, s, u = (zi(v) for v in vals)
    lp = leap(y)
    ok = z3.And(I(y) >= 1, I(y) <= 9999, I(mo) >= 1, I(mo) <= 12, I(d) >= 1, I(d) <= month_days(I(mo), lp),
                I(h) >= 0, I(h) < 24, I(mi) >= 0, I(mi) < 60, I(s) >= 0, I(s) < 60, I(u) >= 0, I(u) < 10**6)
    if not c.branch(ok):
        raise PyRaise(ValueError('datetime field out of range'))
    wrap = lambda v: v if isinstance(v, SInt) else SInt(z3.IntVal(v))
    us = fields_us(y, mo, d, h, mi, s, u)
    # Gregorian lemma: valid fields lie in the named year
    c.fact(z3.And(us >= year_start(y), us < year_start(y + 1)))
    return SDT(it, us, tzinfo, wrap(year), dict(zip(FIELDS, map(wrap, vals[1:]))))


class SFrac(object):
    """Fraction num/den with a constant positive denominator"""
    _pyvc_type = Fraction

    def __init__(self, num, den):
        self.num, self.den = num, den

    def pyvc_getattr(self, it, name):
        if name == 'limit_denominator':
            return Fn(self.limit)
        if name == 'numerator' or name == 'denominator':
            raise Unsupported('Fraction.%s' % name)
        raise Unsupported('Fraction.%s' % name)

    def limit(self, it, n=1000000):
        if n != 1:
            raise Unsupported('limit_denominator(%r)' % (n,))
        r = it.ctx.fresh_int('nearest')
        it.ctx.fact(z3.And(2 * (r.z * self.den - I(self.num)) <= self.den, 2 * (I(self.num) - r.z * self.den) <= self.den))
        return SFrac(r.z, 1)

    def pyvc_binop(self, it, op, y, d):
        if op is ast.Mult and isinstance(y, (int, SInt)):
            return SFrac(simp(I(self.num) * I(y)), self.den)
        if op is ast.Mult and isinstance(y, Fraction):
            return SFrac(simp(I(self.num) * y.numerator), self.den * y.denominator)
        return MISSING

    def pyvc_int(self, it):
        q = I(self.num) / self.den
        return mkint(z3.If(z3.Or(I(self.num) >= 0, I(self.num) % self.den == 0), q, q + 1))

    def sym_truth(self, it):
        return it.ctx.branch(I(self.num) != 0)


# ------------------------------------------------------------------------------------------- digit text
def widths(it, v):
    """[(part, width)] of text made of literals and fixed-width digit runs"""
    out = []
    for p in (v.parts if isinstance(v, SStr) else (v,)):
        if isinstance(p, str):
            out.append((p, len(p)))
        elif isinstance(p, DecText) and p.pad and it.ctx.implied(z3.And(I(p.z) >= 0, I(p.z) < 10**p.pad)):
            out.append((p, p.pad))
        else:
            raise Unsupported('text of unknown width')
    return out


def cut_text(it, v, a, b):
    out, pos = [], 0
    for p, w in widths(it, v):
        x, y = max(a - pos, 0), min(b - pos, w)
        pos += w
        if x >= y:
            continue
        if isinstance(p, str):
            out.append(p[x:y])
        elif (x, y) == (0, w):
            out.append(p)
        else:
            out.append(DecText(simp((I(p.z) / 10**(w - y)) % 10**(y - x)), y - x))
    return mkstr(out)


def digits_value(it, v):
    """integer denoted by text made of digits only"""
    r = z3.IntVal(0)
    for p, w in widths(it, v):
        if isinstance(p, str):
            if not p.isascii() or not p.isdigit():
                raise Unsupported('int() of text')
            r = r * 10**w + int(p)
        else:
            r = r * 10**w + I(p.z)
    return mkint(simp(r))


class Matcher(object):
    """backtracking matcher over the parsed regular expression (CPython's own parser); a test of a symbolic digit against a
    character set that separates the digits forks the path"""

    def __init__(self, it, pattern, v):
        import re._parser as sp
        self.it = it
        self.tree = sp.parse(pattern.pattern, pattern.flags)
        self.flags = pattern.flags
        self.chars = []
        for p, w in widths(it, v):
            for i in range(w):
                if isinstance(p, str):
                    self.chars.append(p[i])
                else:
                    self.chars.append((I(p.z) / 10**(w - 1 - i)) % 10 if w > 1 else I(p.z))

    def test(self, i, pred):
        """does the character at i satisfy pred?"""
        if i >= len(self.chars):
            return False
        ch = self.chars[i]
        if isinstance(ch, str):
            return pred(ch)
        yes = [d for d in range(10) if pred(str(d))]
        if len(yes) in (0, 10):
            return bool(yes)
        return self.it.ctx.branch(z3.Or(*[ch == d for d in yes]))

    def run(self, name):
        n = len(self.chars)
        for start in (range(n + 1) if name == 'search' else (0,)):
            g = {}
            out = []

            def done(i, g):
                if name == 'fullmatch' and i != n:
                    return False
                out.append((i, dict(g)))
                return True
            if self.seq(list(self.tree), 0, start, g, done):
                i, g = out[0]
                g[0] = (start, i)
                return g
        return None

    def seq(self, items, k, i, g, cont):
        import re._constants as sc
        if k == len(items):
            return cont(i, g)
        op, av = items[k]
        nxt = lambda j, g: self.seq(items, k + 1, j, g, cont)
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.IN, sc.ANY):
            if op is sc.LITERAL:
                pred = lambda ch: ord(ch) == av
            elif op is sc.NOT_LITERAL:
                pred = lambda ch: ord(ch) != av
            elif op is sc.ANY:
                pred = lambda ch: bool(self.flags & re.S) or ch != '\n'
            else:
                pred = lambda ch: self.in_set(av, ch)
            if self.flags & re.I:
                raise Unsupported('case-insensitive regular expression')
            return self.test(i, pred) and nxt(i + 1, g)
        if op is sc.BRANCH:
            return any(self.seq(list(b) , 0, i, dict(g), nxt) for b in av[1])
        if op is sc.SUBPATTERN:
            num, add, dele, sub = av
            if add or dele:
                raise Unsupported('inline flags')

            def close(j, g):
                if num is not None:
                    g = dict(g)
                    g[num] = (i, j)
                return nxt(j, g)
            return self.seq(list(sub), 0, i, dict(g), close)
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)

            def rep(n, j, g):
                def more(j2, g2):
                    return False if j2 == j and n >= lo else rep(n + 1, j2, g2)
                can = hi is sc.MAXREPEAT or n < hi
                if n < lo:
                    return self.seq(sub, 0, j, dict(g), more)
                if op is sc.MAX_REPEAT:
                    return can and self.seq(sub, 0, j, dict(g), more) or nxt(j, g)
                return nxt(j, g) or can and self.seq(sub, 0, j, dict(g), more)
            return rep(0, i, g)
        if op is sc.AT:
            n = len(self.chars)
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                ok = i == 0
                if self.flags & re.M and av is sc.AT_BEGINNING:
                    raise Unsupported('multiline')
            elif av is sc.AT_END_STRING:
                ok = i == n
            elif av is sc.AT_END and not self.flags & re.M:
                ok = i == n or i == n - 1 and self.chars[i] == '\n'
            else:
                raise Unsupported('regular expression anchor')
            return ok and nxt(i, g)
        raise Unsupported('regular expression %s' % op)

    def in_set(self, items, ch):
        import re._constants as sc
        neg = False
        hit = False
        for op, av in items:
            if op is sc.NEGATE:
                neg = True
            elif op is sc.LITERAL:
                hit |= ord(ch) == av
            elif op is sc.RANGE:
                hit |= av[0] <= ord(ch) <= av[1]
            elif op is sc.CATEGORY:
                name = {sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D', sc.CATEGORY_SPACE: r'\s',
                        sc.CATEGORY_NOT_SPACE: r'\S', sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W'}[av]
                hit |= re.match(name, ch, self.flags & re.A) is not None
            else:
                raise Unsupported('character set')
        return hit != neg


class SMatch(object):
    _pyvc_type = re.Match

    def __init__(self, pattern, spans, text):
        self.re, self.spans, self.text = pattern, spans, text

    def sym_truth(self, it):
        return True

    def span(self, k):
        if isinstance(k, str):
            if k not in self.re.groupindex:
                raise PyRaise(IndexError('no such group'))
            k = self.re.groupindex[k]
        if not 0 <= k <= self.re.groups:
            raise PyRaise(IndexError('no such group'))
        return self.spans.get(k, (-1, -1))

    def grp(self, it, k, default=None):
        a, b = self.span(k)
        return default if a < 0 else cut_text(it, self.text, a, b)

    def pyvc_getattr(self, it, name):
        if name == 'group':
            return Fn(lambda it, *k: self.grp(it, k[0] if k else 0) if len(k) < 2 else tuple(self.grp(it, x) for x in k))
        if name == 'groupdict':
            return Fn(lambda it, default=None: dict((n, self.grp(it, n, default)) for n in self.re.groupindex))
        if name == 'groups':
            return Fn(lambda it, default=None: tuple(self.grp(it, i + 1, default) for i in range(self.re.groups)))
        if name in ('start', 'end', 'span'):
            return Fn(lambda it, k=0: self.span(k) if name == 'span' else self.span(k)[name == 'end'])
        raise Unsupported('match.%s' % name)

    def pyvc_getitem(self, it, k):
        return self.grp(it, k)


def regex(it, slf, name, args):
    """pattern.match/fullmatch/search of text made of literals and fixed-width digit runs"""
    v = args[0]
    if name not in ('match', 'fullmatch', 'search') or len(args) != 1 or not isinstance(v, SStr):
        return MISSING
    spans = Matcher(it, slf, v).run(name)
    return None if spans is None else SMatch(slf, spans, v)


def text_eq(it, a, b):
    """equality of two texts of literals and digit runs, given that b's runs have fixed width"""
    pa = list(a.parts) if isinstance(a, SStr) else [a] if a else []
    pb = list(b.parts) if isinstance(b, SStr) else [b] if b else []
    conds = []
    # align: an unpadded run in a faces a padded one in b
    wb = sum(w for _, w in widths(it, b)) if pb else 0
    if any(not isinstance(p, (str, DecText)) for p in pa):
        return z3.BoolVal(False)
    try:
        wa = sum(w for _, w in widths(it, a)) if pa else 0
    except Unsupported:
        # a run without fixed width: equal only when the pieces line up
        if len(pa) != len(pb):
            return z3.BoolVal(False)
        for x, y in zip(pa, pb):
            if isinstance(x, str) or isinstance(y, str):
                conds.append(z3.BoolVal(x == y if isinstance(x, str) and isinstance(y, str) else False))
            else:
                conds.append(I(x.z) == I(y.z))
                if x.pad != y.pad:
                    conds.append(I(x.z) >= 10**(y.pad - 1) if y.pad > 1 else z3.BoolVal(True))
        return z3.And(*conds) if conds else z3.BoolVal(True)
    if wa != wb:
        return z3.BoolVal(False)
    # common refinement
    cuts = set([0, wa])
    for v in (a, b):
        pos = 0
        for _, w in (widths(it, v) if v else []):
            pos += w
            cuts.add(pos)
    cs = sorted(cuts)
    for x, y in zip(cs, cs[1:]):
        p, q = cut_text(it, a, x, y), cut_text(it, b, x, y)
        if isinstance(p, str) and isinstance(q, str):
            conds.append(z3.BoolVal(p == q))
        else:
            def val(t):
                if isinstance(t, str):
                    return z3.IntVal(int(t)) if t.isdigit() else None
                return I(digits_value(it, t))
            u, v2 = val(p), val(q)
            conds.append(z3.BoolVal(False) if u is None or v2 is None else u == v2)
    return z3.And(*conds) if conds else z3.BoolVal(True)


# ------------------------------------------------------------------------------------------- hooks
def natives():
    """assumed contracts for calls of the library types with symbolic arguments"""
    def m_datetime(it, *a, **k):
        if is_concrete(list(a)) and is_concrete(k):
            return MISSING
        return construct(it, *a, **k)

    def m_timedelta(it, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        parts = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if is_concrete(list(parts)):
            return MISSING
        unit = (DAY, 10**6, 1, 1000, 60 * 10**6, 3600 * 10**6, 7 * DAY)
        if not all(isinstance(p, (int, SInt)) for p in parts):
            raise Unsupported('timedelta of floats')
        return mktd(it, simp(sum((I(p) * u for p, u in zip(parts, unit)), z3.IntVal(0))))

    def m_fraction(it, num=0, den=None):
        if is_concrete(num) and is_concrete(den):
            return MISSING
        if not isinstance(num, SInt) or not (den is None or isinstance(den, int)):
            raise Unsupported('Fraction of symbolic denominator')
        return SFrac(num.z, den or 1)
    return {datetime: m_datetime, timedelta: m_timedelta, Fraction: m_fraction}
