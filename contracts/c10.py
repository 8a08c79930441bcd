"""C10: year-zero dates follow the Gregorian calendar and order with real dates."""
import ast
from datetime import datetime, date, timedelta, timezone, tzinfo, time
from .common import *  # noqa
from pyvc import times
from pyvc.times import SDT, STD, STZ, I, DAY, D2000, MAXUS, year_start
from oracle import cal

ASSUME = ('datetime, timedelta: wall-clock microseconds over the proleptic Gregorian calendar (pyvc/times.py); '
          'tzinfo objects have a constant utcoffset',)
ED = util.extended_datetime
MIN = 60 * 10**6
Y0 = -366 * DAY          # start of year 0


# ---------------------------------------------------------------------------------------------- runtime contract
def tz_of(off):
    """off: None or microseconds"""
    if off is None:
        return None
    return timezone(timedelta(microseconds=off))


def mk(us, off):
    """the library's value of a wall-clock time in year 0, a datetime for the others; None when there is none"""
    y, m, d, h, mi, s, u = cal.civil(us)
    if y == 0:
        return ED(0, m, d, h, mi, s, u, tz_of(off))
    if 1 <= y <= 9999:
        return datetime(y, m, d, h, mi, s, u, tz_of(off))
    return None


def fields(v):
    o = v.utcoffset()
    return cal.micros(v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond), \
        None if o is None else times.td_us(o)


def same(v, us, off):
    """is v the value for wall clock us at offset off?"""
    if v is None or not isinstance(v, (ED, datetime)):
        return False
    if isinstance(v, ED) != (us < 0):
        return False
    return fields(v) == (us, off)


def run(f, *a):
    try:
        return 'ret', f(*a)
    except (ValueError, TypeError, OverflowError) as e:
        return 'exc', e


def chk_value(us, off):
    v = mk(us, off)
    y, m, d, h, mi, s, u = cal.civil(us)
    if (v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond) != (y, m, d, h, mi, s, u):
        return 'fields %r of %r' % (v, (y, m, d, h, mi, s, u))
    if v.tzinfo is not tz_of(off) and v.tzinfo != tz_of(off):
        return 'tzinfo'
    if v.time() != time(h, mi, s, u) or v.date() != util.extended_date(0, m, d) or v.date().month != m or v.date().day != d \
            or v.date().year != 0:
        return 'time() or date()'
    iso = '0000-%02d-%02dT%02d:%02d:%02d' % (m, d, h, mi, s) + ('.%06d' % u if u else '')
    if off is not None:
        mins = off // MIN
        iso += '%s%02d:%02d' % (('-' if mins < 0 else '+',) + divmod(abs(mins), 60))
    if v.isoformat() != iso or str(v) != iso.replace('T', ' ') or v.isoformat(sep=' ') != str(v):
        return 'isoformat %r, not %r' % (v.isoformat(), iso)
    f = v.strftime('%Y|%m|%d|%H|%M|%S|%f|%y|%j|%C|2|24')
    w = '0000|%02d|%02d|%02d|%02d|%02d|%06d|00|%03d|00|2|24' % (m, d, h, mi, s, u, cal.days(0, m, d) - cal.days(0, 1, 1) + 1)
    if f != w:
        return 'strftime %r, not %r' % (f, w)
    dow = (cal.days(0, m, d)) % 7          # 0001-01-01 is a Monday
    f = v.strftime('%a %A %b %B')
    import calendar
    w = '%s %s %s %s' % (calendar.day_abbr[dow], calendar.day_name[dow], calendar.month_abbr[m], calendar.month_name[m])
    if f != w:
        return 'strftime %r, not %r' % (f, w)
    x = v.date()
    if x.isoformat() != iso[:10] or str(x) != iso[:10] or x.strftime('%Y/%m/%d %j %a') != '0000/%02d/%02d %03d %s' % (
            m, d, cal.days(0, m, d) - cal.days(0, 1, 1) + 1, calendar.day_abbr[dow]):
        return 'date text %r %r' % (x.isoformat(), x.strftime('%Y/%m/%d %j'))
    for ny in (None, 0, 1, 4, 9999):
        r, w = run(v.replace, ny) if ny is not None else run(lambda: v.replace(minute=5))
        if ny is None:
            if r != 'ret' or not same(w, cal.micros(0, m, d, h, 5, s, u), off):
                return 'replace(minute)'
        elif ny and not cal.valid(ny, m, d):
            if r != 'exc':
                return 'replace(%d) of 29 February' % ny
        elif r != 'ret' or not same(w, cal.micros(ny, m, d, h, mi, s, u), off):
            return 'replace(%d)' % ny
        r, w = run(x.replace, ny) if ny is not None else run(lambda: x.replace(day=5))
        if ny is None:
            ok = r == 'ret' and isinstance(w, util.extended_date) and (w.year, w.month, w.day) == (0, m, 5)
        elif ny and not cal.valid(ny, m, d):
            ok = r == 'exc'
        elif ny:
            ok = r == 'ret' and w == date(ny, m, d)
        else:
            ok = r == 'ret' and w == x
        if not ok:
            return 'date.replace(%r)' % ny
    if off is not None:
        for o2 in (0, 14 * 60 * MIN, -12 * 60 * MIN, off):
            u2 = us - off + o2
            r, w = run(v.astimezone, tz_of(o2))
            if u2 < Y0:
                if r != 'exc':
                    return 'astimezone into year -1'
            elif r != 'ret' or not same(w, u2, o2):
                return 'astimezone(%d min): %r' % (o2 // MIN, w)
        if abs(v.timestamp() - (us - off - cal.micros(1970, 1, 1)) / 10**6) > 1e-3:
            return 'timestamp'
    return None


def chk_add(us, off, d):
    a = mk(us, off)
    td = timedelta(microseconds=d)
    for what, f, want in (('+', lambda: a + td, us + d), ('-', lambda: a - td, us - d)):
        r, v = run(f)
        if want < Y0 or want >= MAXUS:
            if r != 'exc':
                return 'a %s d out of the calendar gives %r' % (what, v)
            continue
        if r != 'ret' or not same(v, want, off):
            return 'a %s d gives %r, not %r' % (what, v, cal.civil(want))
        sg = 1 if what == '+' else -1
        r, back = run(lambda: v - a)
        if r != 'ret' or back != sg * td:
            return '(a %s d) - a gives %r' % (what, back)
        r, back = run(lambda: a - v)
        if r != 'ret' or back != -sg * td:
            return 'a - (a %s d) gives %r' % (what, back)
        r, back = run(lambda: v - td if what == '+' else v + td)
        if want < 0 and (r != 'ret' or back != a):
            return '(a %s d) and back gives %r' % (what, back)
    return None


def chk_cmp(us, off, us2, off2):
    a, b = mk(us, off), mk(us2, off2)
    if b is None:
        return None
    if (off is None) != (off2 is None):
        if a == b or not a != b or b == a or not b != a:
            return 'a naive and an aware value compare equal'
        for f in (lambda: a < b, lambda: a <= b, lambda: a > b, lambda: a >= b, lambda: b < a, lambda: a - b):
            r, v = run(f)
            if r != 'exc' or not isinstance(v, TypeError):
                return 'naive and aware values are ordered'
        return None
    x, y = us - (off or 0), us2 - (off2 or 0)
    got = (a == b, a != b, a < b, a <= b, a > b, a >= b)
    if got != (x == y, x != y, x < y, x <= y, x > y, x >= y):
        return 'a ? b: %r for %r and %r' % (got, a, b)
    got = (b == a, b != a, b < a, b <= a, b > a, b >= a)
    if got != (x == y, x != y, x > y, x >= y, x < y, x <= y):
        return 'b ? a: %r for %r and %r' % (got, a, b)
    if x == y and hash(a) != hash(b):
        return 'equal values with different hashes'
    if times.td_us(a - b) != x - y or times.td_us(b - a) != y - x:
        return 'difference'
    return None


def chk_dates(n, n2):
    """days of year 0, n2 from year 0 on"""
    def md(k):
        return cal.civil((k - 366) * DAY)[:3]
    y, m, d = md(n)
    a = util.extended_date(y, m, d)
    y2, m2, d2 = md(n2)
    b = util.extended_date(y2, m2, d2) if y2 == 0 else date(y2, m2, d2)
    got = (a == b, a != b, a < b, a <= b, a > b, a >= b)
    if got != (n == n2, n != n2, n < n2, n <= n2, n > n2, n >= n2):
        return 'a ? b: %r for %s and %s' % (got, a, b)
    got = (b == a, b != a, b < a, b <= a, b > a, b >= a)
    if got != (n == n2, n != n2, n > n2, n >= n2, n < n2, n <= n2):
        return 'b ? a: %r for %s and %s' % (got, a, b)
    if n == n2 and hash(a) != hash(b):
        return 'equal dates with different hashes'
    return None


# ---------------------------------------------------------------------------------------------- deductive units
def sym_ext(it, name, aware, zero_based=True):
    """an extended_datetime built by its own constructor contract: any wall clock in year 0"""
    c = it.ctx
    us = c.in_int(name + '_us')
    c.fact(z3.And(us.z >= Y0, us.z < 0))
    tz = None
    if aware:
        off = c.in_int(name + '_off')
        c.fact(z3.And(off.z > -DAY, off.z < DAY))
        tz = STZ(off.z, name + '_tz')
    o = object.__new__(ED)
    o.__dict__['_y2k'] = SDT(it, simp(us.z + D2000), tz)
    return o, us.z, None if tz is None else tz.off


def sym_real(it, name, aware):
    c = it.ctx
    us = c.in_int(name + '_us')
    c.fact(z3.And(us.z >= 0, us.z < MAXUS))
    tz = None
    if aware:
        off = c.in_int(name + '_off')
        c.fact(z3.And(off.z > -DAY, off.z < DAY))
        tz = STZ(off.z, name + '_tz')
    return SDT(it, us.z, tz), us.z, None if tz is None else tz.off


def is_value(it, v, us, off, tz=MISSING):
    """z3 formula: v is the value for the wall clock us (year 0: extended, later: real) with the tzinfo"""
    if isinstance(v, ED):
        y = v.__dict__.get('_y2k')
        if not isinstance(y, SDT):
            return z3.BoolVal(False)
        f = z3.And(us < 0, us >= Y0, I(y.us) == us + D2000)
        t = y.tz
    elif isinstance(v, SDT):
        f = z3.And(us >= 0, I(v.us) == us)
        t = v.tz
    else:
        return z3.BoolVal(False)
    o = times.tz_off(t)
    if (o is None) != (off is None):
        return z3.BoolVal(False)
    return f if off is None else z3.And(f, I(o) == I(off))


class Arith(Unit):
    targets = ('asn1crypto.util.extended_datetime.__add__', 'asn1crypto.util.extended_datetime.__sub__',
               'asn1crypto.util.extended_datetime.__rsub__', 'asn1crypto.util.extended_datetime.from_y2k')
    covers = ('year 0', 'real', 'outside')
    assumptions = ASSUME

    def __init__(self, aware, sub):
        self.aware, self.sub = aware, sub
        self.name = 'year-0 datetime %s duration (%s)' % ('minus' if sub else 'plus', 'aware' if aware else 'naive')

    def run(self, it):
        c = it.ctx
        it.native_contracts = times.natives()
        a, us, off = sym_ext(it, 'a', self.aware)
        d = c.in_int('d')
        c.fact(z3.And(d.z > -STD.LIMIT, d.z < STD.LIMIT))
        td = STD(d.z)
        want = us - d.z if self.sub else us + d.z
        try:
            v = it.binop(ast.Sub() if self.sub else ast.Add(), a, td)
        except PyRaise as e:
            c.cover('outside')
            c.prove('refused only outside the calendar', z3.Or(want < Y0, want >= MAXUS))
            c.prove('OverflowError or ValueError', isinstance(e.exc, (OverflowError, ValueError)))
            return
        c.cover('real' if isinstance(v, SDT) else 'year 0')
        c.prove('the same timeline, real from year 1 on', is_value(it, v, want, off))
        try:
            back = it.binop(ast.Sub(), v, a)
            back2 = it.binop(ast.Sub(), a, v)
        except PyRaise:
            c.prove('(a + d) - a', False)
            return
        u, u2 = times.td_us(back), times.td_us(back2)
        c.prove('(a + d) - a == d', z3.BoolVal(u is not None) if u is None else I(u) == (-d.z if self.sub else d.z))
        c.prove('a - (a + d) == -d', z3.BoolVal(u2 is not None) if u2 is None else I(u2) == (d.z if self.sub else -d.z))

    def oracle(self, i):
        return chk_add(i['a_us'], i.get('a_off'), i['d'])


class Compare(Unit):
    targets = tuple('asn1crypto.util.extended_datetime.' + n for n in (
        '__cmp__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__hash__', '__sub__'))
    covers = ('equal', 'less', 'greater')
    assumptions = ASSUME + ('hash of a datetime is a function of its instant (aware) or wall clock (naive)',)

    def __init__(self, aware, real):
        self.aware, self.real = aware, real
        self.name = 'comparison with a %s (%s)' % ('real datetime' if real else 'year-0 datetime', 'aware' if aware else 'naive')
        if real and not aware:
            self.covers = ('less',)

    def run(self, it):
        c = it.ctx
        it.native_contracts = times.natives()
        it.contracts = dict(it.contracts, **{'asn1crypto.util.create_timezone': mk_tz})
        a, us, off = sym_ext(it, 'a', self.aware)
        b, us2, off2 = (sym_real if self.real else sym_ext)(it, 'b', self.aware)
        x, y = (us - off, us2 - off2) if self.aware else (us, us2)
        for nm, op, z in (('==', ast.Eq, x == y), ('!=', ast.NotEq, x != y), ('<', ast.Lt, x < y), ('<=', ast.LtE, x <= y),
                          ('>', ast.Gt, x > y), ('>=', ast.GtE, x >= y)):
            for rev in (0, 1):
                z2 = z if not rev else {'==': x == y, '!=': x != y, '<': y < x, '<=': y <= x, '>': y > x, '>=': y >= x}[nm]
                try:
                    r = it.compare(op(), b, a) if rev else it.compare(op(), a, b)
                    t = it.truth(r)
                except PyRaise:
                    c.prove('no exception from ' + nm, False)
                    return
                c.prove('%s %s %s' % (('b', nm, 'a') if rev else ('a', nm, 'b')), z2 == t)
        c.cover('equal' if c.implied(x == y) else 'less' if c.implied(x < y) else 'greater')
        if c.implied(x == y):
            ra, ha = outcome(it, hash, a)
            rb, hb = outcome(it, hash, b)
            c.prove('equal values have equal hashes', ra == rb == 'ret' and Z(ha) == Z(hb))

    def oracle(self, i):
        return chk_cmp(i['a_us'], i.get('a_off'), i['b_us'], i.get('b_off'))


def mk_tz(it, f, args, kw):
    u = times.td_us(args[0])
    if u is None:
        return MISSING
    if not it.ctx.branch(z3.And(I(u) > -DAY, I(u) < DAY)):
        raise PyRaise(ValueError('offset must be strictly between -24 and 24 hours'))
    return STZ(u, 'tz')


class Mixed(Unit):
    name = 'naive and aware values'
    targets = Compare.targets
    assumptions = ASSUME

    def run(self, it):
        c = it.ctx
        it.native_contracts = times.natives()
        k = c.choose(4)
        a, us, off = sym_ext(it, 'a', bool(k & 1))
        b, us2, off2 = (sym_real if k & 2 else sym_ext)(it, 'b', not k & 1)
        r, v = outcome_op(it, ast.Eq, a, b)
        c.prove('never equal', r == 'ret' and v is False)
        r, v = outcome_op(it, ast.NotEq, a, b)
        c.prove('different', r == 'ret' and v is True)
        for op in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
            r, v = outcome_op(it, op, a, b)
            c.prove('not ordered', r == 'exc' and isinstance(v, TypeError))

    def oracle(self, i):
        return chk_cmp(i['a_us'], i.get('a_off'), i['b_us'], i.get('b_off'))


def outcome_op(it, op, a, b):
    try:
        return 'ret', it.truth(it.compare(op(), a, b))
    except PyRaise as e:
        return 'exc', e.exc


class Build(Unit):
    """construction, fields, conversion between time zones"""
    name = 'construction, fields and astimezone'
    targets = tuple('asn1crypto.util.extended_datetime.' + n for n in (
        '__init__', 'year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo', 'utcoffset', 'astimezone', 'from_y2k'))
    covers = ('valid', 'refused', 'astimezone year 0', 'astimezone real', 'astimezone refused')
    assumptions = ASSUME

    def run(self, it):
        c = it.ctx
        it.native_contracts = times.natives()
        names = ('month', 'day', 'hour', 'minute', 'second', 'microsecond')
        vals = [c.in_int(n) for n in names]
        yr = c.in_int('year')
        off = c.in_int('off')
        c.fact(z3.And(off.z > -DAY, off.z < DAY))
        tz = STZ(off.z)
        m, d, h, mi, s, u = (v.z for v in vals)
        ok = z3.And(yr.z == 0, m >= 1, m <= 12, d >= 1, d <= times.month_days(m, z3.BoolVal(True)), h >= 0, h < 24, mi >= 0, mi < 60, s >= 0,
                    s < 60, u >= 0, u < 10**6)
        r, o = outcome(it, ED, yr, *vals, **{'tzinfo': tz})
        if r == 'exc':
            c.cover('refused')
            c.prove('refused only when no such date', z3.Not(ok))
            c.prove('ValueError', isinstance(o, ValueError))
            return
        c.cover('valid')
        c.prove('accepted only dates of year 0', ok)
        for n, v in list(zip(names, vals)) + [('year', 0)]:
            r, g = getp(it, o, n)
            c.prove('field ' + n, r == 'ret' and is_int(g) and Z(g) == Z(v))
        r, g = getp(it, o, 'tzinfo')
        c.prove('tzinfo', r == 'ret' and g is tz)
        r, g = meth(it, o, 'utcoffset')
        c.prove('utcoffset', r == 'ret' and isinstance(g, STD) and I(g.us) == off.z)
        us = (times.month_start(m, z3.BoolVal(True)) + d - 1) * DAY + ((h * 60 + mi) * 60 + s) * 10**6 + u + Y0
        off2 = c.in_int('off2')
        c.fact(z3.And(off2.z > -DAY, off2.z < DAY))
        want = us - off.z + off2.z
        r, g = meth(it, o, 'astimezone', STZ(off2.z))
        if r == 'exc':
            c.cover('astimezone refused')
            c.prove('astimezone refused only before year 0', want < Y0)
            return
        c.cover('astimezone year 0' if isinstance(g, ED) else 'astimezone real')
        c.prove('astimezone keeps the instant', is_value(it, g, want, off2.z))

    def oracle(self, i):
        y, m, d = i['year'], i['month'], i['day']
        if y != 0 or not cal.valid(0, m, d, i['hour'], i['minute'], i['second']) or not 0 <= i['microsecond'] < 10**6:
            r, v = run(ED, y, m, d, i['hour'], i['minute'], i['second'], i['microsecond'])
            return None if r == 'exc' and isinstance(v, ValueError) else 'accepted %r' % (v,)
        return chk_value(cal.micros(0, m, d, i['hour'], i['minute'], i['second'], i['microsecond']), i['off'])


class Replace(Unit):
    name = 'replace'
    targets = ('asn1crypto.util.extended_datetime.replace',)
    covers = ('year 0', 'real', 'refused')
    assumptions = ASSUME

    def run(self, it):
        c = it.ctx
        it.native_contracts = times.natives()
        a, us, off = sym_ext(it, 'a', True)
        y = a.__dict__['_y2k']
        f = y.fields(it)
        yr = c.in_int('year')
        mi = c.in_int('minute')
        which = c.choose(2)
        kw = {'minute': mi} if which else {}
        r, v = meth(it, a, 'replace', yr, **kw)
        nm = mi.z if which else f['minute'].z
        ok = z3.And(yr.z >= 0, yr.z <= 9999, nm >= 0, nm < 60, f['day'].z <= times.month_days(f['month'].z, times.leap(yr.z)))
        if r == 'exc':
            c.cover('refused')
            c.prove('refused only when no such date', z3.Not(ok))
            return
        c.cover('year 0' if isinstance(v, ED) else 'real')
        c.prove('accepted only when there is such a date', ok)
        want = times.fields_us(yr.z, f['month'].z, f['day'].z, f['hour'].z, nm, f['second'].z, f['microsecond'].z)
        c.prove('the named fields change, nothing else', is_value(it, v, want, off))

    def oracle(self, i):
        a = mk(i['a_us'], i['a_off'])
        for kw in ({}, {'minute': i['minute']}):
            y, m, d, h, mi, s, u = cal.civil(i['a_us'])
            mi = kw.get('minute', mi)
            r, v = run(lambda: a.replace(i['year'], **kw))
            if not 0 <= i['year'] <= 9999 or not cal.valid(i['year'], m, d, h, mi, s):
                if r != 'exc':
                    return 'replace(%r) accepted' % i['year']
            elif r != 'ret' or not same(v, cal.micros(i['year'], m, d, h, mi, s, u), i['a_off']):
                return 'replace(%r, %r) gives %r' % (i['year'], kw, v)
        return None


# ---------------------------------------------------------------------------------------------- bounded
OFFS = [None, None, 0, 60, -60, 14 * 60, -12 * 60, 5 * 60 + 30, -(9 * 60 + 30), 23 * 60 + 59, -(23 * 60 + 59), 1, -1]
EDGE = [Y0, Y0 + 1, Y0 + 59 * DAY, Y0 + 60 * DAY - 1, Y0 + 60 * DAY, -1, -10**6, -DAY, -DAY - 1, Y0 + 59 * DAY - 1]


def rus(rng):
    return rng.choice(EDGE) if rng.random() < .3 else Y0 + rng.randrange(366 * DAY) if rng.random() < .6 else Y0 + rng.randrange(366) * DAY


def roff(rng):
    o = rng.choice(OFFS) if rng.random() < .6 else rng.randrange(-1439, 1440)
    return None if o is None else o * MIN


class Values(Bounded):
    name = 'fields and texts of year 0'
    rule = 'every day of year 0, random times and offsets; distinct by wall clock and offset'
    seconds = 12

    def cases(self, rng, tier):
        for k in range(366):
            yield Y0 + k * DAY + rng.randrange(DAY), roff(rng)
        for e in EDGE:
            for o in OFFS:
                yield e, None if o is None else o * MIN
        while True:
            yield rus(rng), roff(rng)

    def oracle(self, case):
        return chk_value(*case)


class Arithmetic(Bounded):
    name = 'durations'
    rule = 'random and boundary durations over the whole calendar; distinct by value and duration'
    seconds = 10

    def cases(self, rng, tier):
        while True:
            us = rus(rng)
            k = rng.randrange(6)
            d = [0, rng.randrange(-400 * DAY, 400 * DAY), -us, rng.randrange(-2 * DAY, MAXUS), MAXUS - us - rng.randrange(3),
                 rng.choice([1, -1, DAY, -DAY, 366 * DAY, 10**15, -10**15, MAXUS - D2000 - us - rng.randrange(3), 8000 * 365 * DAY])][k]
            yield us, roff(rng), d

    def oracle(self, case):
        return chk_add(*case)


class Order(Bounded):
    name = 'comparison and hash'
    rule = 'pairs of year-0 and real values, near in instant; distinct by pair'
    seconds = 10

    def cases(self, rng, tier):
        while True:
            us, off = rus(rng), roff(rng)
            off2 = roff(rng)
            if off is not None and off2 is None and rng.random() < .8:
                off2 = 0
            k = rng.randrange(4)
            us2 = [us - (off or 0) + (off2 or 0), us + rng.choice([-1, 0, 1, DAY]), rus(rng), rng.randrange(MAXUS)][k]
            if us2 >= Y0:
                yield us, off, us2, off2

    def oracle(self, case):
        return chk_cmp(*case)


class Dates(Bounded):
    name = 'dates'
    rule = 'every pair of neighbouring days of year 0, random pairs; distinct by pair'
    seconds = 5

    def cases(self, rng, tier):
        for k in range(366):
            for j in (k - 1, k, k + 1):
                if j >= 0:
                    yield k, j
        while True:
            yield rng.randrange(366), rng.randrange(366) if rng.random() < .7 else rng.randrange(366, 3 * 10**6)

    def oracle(self, case):
        return chk_dates(*case)


UNITS = [Arith(False, False), Arith(True, False), Arith(True, True), Arith(False, True), Compare(False, False), Compare(True, False), Compare(False, True), Compare(True, True),
         Mixed, Build, Replace]
BOUNDED = [Values, Arithmetic, Order, Dates]
