"""C09: time values denote the instant they were given, in canonical form."""
import ast
import re
from datetime import datetime, timedelta, timezone, tzinfo
from .common import *  # noqa
from pyvc import times
from pyvc.times import SDT, STD, STZ, I, DAY, MAXUS, widths, cut_text, digits_value, year_start
from oracle import cal, x690
from contracts.c10 import ED, MIN, Y0, mk, fields, same, run, sym_ext, sym_real, is_value, mk_tz, roff, ASSUME, tz_of

SET = 'asn1crypto.core.AbstractString.set'
TEXT = 'asn1crypto.core.AbstractString.__unicode__'
TAGS = {'UTCTime': 23, 'GeneralizedTime': 24}
ASSUME = ASSUME + ('AbstractString.set/__unicode__: the contract proved under C07', 're: CPython\'s parser of regular expressions',
                   'Fraction.limit_denominator(1) is a nearest integer')


# ---------------------------------------------------------------------------------------------- runtime contract
BER = {
    'UTCTime': r'(\d\d)(\d\d)(\d\d)(\d\d)(\d\d)(\d\d)?()(?:(Z)|([+-])(\d\d)([0-5]\d))',
    'GeneralizedTime': r'(\d\d\d\d)(\d\d)(\d\d)(\d\d)(?:(\d\d)(\d\d)?)?(?:[.,](\d+))?(?:(Z)|([+-])(\d\d)([0-5]\d)?)?',
}


def meaning(cls, text):
    """(us numerator, denominator, offset us or None), or None for malformed text"""
    m = re.fullmatch(BER[cls], text, re.A)
    if not m:
        return None
    y, mo, d, h, mi, s, fr, z, sg, dh, dm = m.groups()
    y = int(y)
    if cls == 'UTCTime':
        y += 1900 if y >= 50 else 2000
    v = [int(x) for x in (mo, d, h, mi or 0, s or 0)]
    if not cal.valid(y, *v):
        return None
    off = None
    if z:
        off = 0
    elif sg:
        off = (int(dh) * 60 + int(dm or 0)) * MIN * (1 if sg == '+' else -1)
        if int(dh) > 23:
            return None
    base = cal.micros(y, *v)
    if fr:
        unit = (1 if s else 60 if mi else 3600) * 10**6
        den = 10**len(fr)
        return base * den + int(fr) * unit, den, off
    return base, 1, off


def chk_text(cls, text):
    """reading any text"""
    C = getattr(core, cls)
    try:
        raw = text.encode('latin1')
    except UnicodeEncodeError:
        return None
    want = meaning(cls, text)
    for how in (0, 1):
        if how == 0:
            o = C.load(x690.emit(0, 0, TAGS[cls], raw))
        else:
            o = C(text)
            if bytes(o.contents) != raw:
                return 'text stored as %r' % (o.contents,)
        r, v = run(lambda: o.native)
        if want is None:
            if r != 'exc' or not isinstance(v, ValueError):
                return 'malformed text %r read as %r' % (text, v)
            continue
        num, den, off = want
        lo = num // den
        if lo + (num % den > 0) >= MAXUS and r == 'exc' and isinstance(v, ValueError):
            continue
        if r != 'ret':
            return 'text %r refused: %r' % (text, v)
        ok = [lo] if num % den == 0 else [lo, lo + 1]
        if not any(same(v, u, off) for u in ok):
            return 'text %r read as %r' % (text, v)
        if o.native != v or str(o) != text:
            return 'second reading differs'
        if num % den:
            continue
        if off is None:
            r, b = run(lambda: o.dump(force=True))
            if r != 'exc' or not isinstance(b, ValueError):
                return 'a forced dump of a local time gives %r' % (b,)
            if o.dump() != x690.emit(0, 0, TAGS[cls], raw):
                return 'a refused forced dump changed the value'
            continue
        inst = lo - off
        canon = canonical(cls, inst)
        r, b = run(lambda: o.dump(force=True))
        if canon is None:
            if r != 'exc' or not isinstance(b, ValueError):
                return 'instant out of range dumped as %r' % (b,)
        elif r != 'ret' or b != x690.emit(0, 0, TAGS[cls], canon.encode()):
            return 'forced dump of %r is %r, not %r' % (text, b, canon)
    return None


def canonical(cls, inst):
    """DER text of an instant, None when out of range"""
    y, mo, d, h, mi, s, u = cal.civil(inst)
    if cls == 'UTCTime':
        return '%02d%02d%02d%02d%02d%02dZ' % (y % 100, mo, d, h, mi, s) if 1950 <= y <= 2049 else None
    if not 0 <= y <= 9999:
        return None
    f = ('.%06d' % u).rstrip('0') if u else ''
    return '%04d%02d%02d%02d%02d%02d%sZ' % (y, mo, d, h, mi, s, f)


def chk_set(cls, us, off):
    """storing the datetime of wall clock us at offset off"""
    C = getattr(core, cls)
    v = mk(us, off)
    if v is None or (cls == 'UTCTime' and us < 0):
        return None
    want = None if off is None else canonical(cls, us - off)
    for hist in range(3):
        if hist == 0:
            o = None
            r, e = run(C, v)
            o = e if r == 'ret' else None
        else:
            o = C.load(x690.emit(0, 0, TAGS[cls], b'20150102030405Z'[2 * (cls == 'UTCTime'):]))
            old = o.dump()
            if hist == 2:
                o.native, str(o)
            r, e = run(o.set, v)
        if want is None:
            if r != 'exc' or not isinstance(e, ValueError):
                return 'out of range or naive %r accepted' % (v,)
            if hist and (o.dump() != old or o.native != datetime(2015, 1, 2, 3, 4, 5, tzinfo=timezone.utc)):
                return 'a refused value changed the old one'
            continue
        if r != 'ret':
            return '%r refused: %r' % (v, e)
        enc = x690.emit(0, 0, TAGS[cls], want.encode())
        if o.dump() != enc or str(o) != want:
            return '%r stored as %r, not %r' % (v, o.contents, want)
        inst = us - off
        if cls == 'UTCTime':
            inst -= inst % 10**6
        for q in (o, C.load(enc), o.copy()):
            r, n = run(lambda: q.native)
            if r != 'ret' or not same(n, inst, 0) or (inst == us - off and not (n == v and not n != v and hash(n) == hash(v))):
                return '%r decodes to %r' % (v, n)
        r, b = run(lambda: o.dump(force=True))
        if r != 'ret' or b != enc:
            return 'forced dump'
    return None


# ---------------------------------------------------------------------------------------------- deductive units
def capture(box):
    def f(it, fn, args, kw):
        box.append(args[1])
        it.setattr(args[0], 'contents', b'\0')
        return None
    return f


STRFTIME = 'asn1crypto.util.extended_datetime.strftime'


def ext_strftime(it, f, args, kw):
    """contract of extended_datetime.strftime for fields whose text does not depend on the year (assumed here; C10 evaluates it
    for every day of year 0)"""
    o, fmt = args
    y = o.__dict__['_y2k']
    if not isinstance(y, SDT) or not isinstance(fmt, str):
        return MISSING
    if not re.fullmatch(r'(?:%[mdHMSfY%]|[^%])*', fmt):
        raise Unsupported('extended strftime %r' % fmt)
    return y.strftime(it, fmt.replace('%Y', '0000'))


def num_at(it, t, a, b):
    """value of the digits at [a, b) of a text, or None"""
    v = cut_text(it, t, a, b)
    try:
        return I(digits_value(it, v))
    except Unsupported:
        return None


def denotes(it, t, cls, inst):
    """z3 formula: text t is the DER form of the instant"""
    F = z3.BoolVal(False)
    if not isinstance(t, SStr):
        return F
    try:
        ws = widths(it, t)
    except Unsupported:
        return F
    n = sum(w for _, w in ws)
    yw = 2 if cls == 'UTCTime' else 4
    if n < yw + 11 or cut_text(it, t, n - 1, n) != 'Z':
        return F
    vals = [num_at(it, t, 0, yw)] + [num_at(it, t, yw + 2 * k, yw + 2 * k + 2) for k in range(5)]
    if any(v is None for v in vals):
        return F
    y, mo, d, h, mi, s = vals
    if cls == 'UTCTime':
        y = z3.If(y < 50, y + 2000, y + 1900)
    lp = times.leap(y)
    ok = z3.And(mo >= 1, mo <= 12, d >= 1, d <= times.month_days(mo, lp), h < 24, mi < 60, s < 60)
    us = times.fields_us(y, mo, d, h, mi, s, z3.IntVal(0))
    fr = cut_text(it, t, yw + 10, n - 1)
    if cls == 'UTCTime':
        if n != 13:
            return F
        return z3.And(ok, us == inst - inst % 10**6)
    if isinstance(fr, str) and not fr:
        return z3.And(ok, us == inst)
    k = n - 1 - (yw + 10) - 1
    if k < 1 or k > 6 or cut_text(it, t, yw + 10, yw + 11) != '.':
        return F
    f = num_at(it, t, yw + 11, n - 1)
    if f is None:
        return F
    return z3.And(ok, f % 10 != 0, us + f * 10**(6 - k) == inst)


class Set(Unit):
    covers = ('stored', 'refused')
    assumptions = ASSUME

    def __init__(self, cls, kind):
        self.cls, self.kind = cls, kind
        self.name = '%s.set: every aware %s' % (cls, 'datetime' if kind == 'real' else 'year-0 datetime')
        self.targets = ('asn1crypto.core.%s.set' % cls,)
        if cls == 'UTCTime' and kind == 'ext':
            self.covers = ()

    def run(self, it):
        c = it.ctx
        it.native_contracts = times.natives()
        box = []
        it.contracts = dict(it.contracts, **{SET: capture(box), 'asn1crypto.util.create_timezone': mk_tz, STRFTIME: ext_strftime})
        a, us, off = (sym_real if self.kind == 'real' else sym_ext)(it, 'a', True)
        inst = us - off
        o = getattr(core, self.cls)()
        o.__dict__['_native'] = datetime(2001, 1, 1)
        lo, hi = (year_start(1950), year_start(2050)) if self.cls == 'UTCTime' else (Y0, MAXUS)
        r, v = meth(it, o, 'set', a)
        if r == 'exc':
            c.cover('refused')
            c.prove('refused only out of range', z3.Or(inst < lo, inst >= hi))
            c.prove('ValueError', isinstance(v, ValueError))
            c.prove('nothing stored', not box and o.__dict__.get('_native') == datetime(2001, 1, 1))
            return
        c.cover('stored')
        c.prove('stored only in range', z3.And(inst >= lo, inst < hi))
        c.prove('stored once', len(box) == 1)
        c.prove('the DER text of the instant', denotes(it, box[0], self.cls, inst))
        c.prove('the old native value is forgotten', o.__dict__.get('_native') is None)

    def oracle(self, i):
        return chk_set(self.cls, i['a_us'], i['a_off'])


class Naive(Unit):
    name = 'naive values are refused'
    targets = ('asn1crypto.core.UTCTime.set', 'asn1crypto.core.GeneralizedTime.set')
    assumptions = ASSUME

    def run(self, it):
        c = it.ctx
        it.native_contracts = times.natives()
        box = []
        it.contracts = dict(it.contracts, **{SET: capture(box)})
        k = c.choose(3)
        cls = ('UTCTime', 'GeneralizedTime', 'GeneralizedTime')[k]
        c.input('cls', cls)
        a, us, off = (sym_ext if k == 2 else sym_real)(it, 'a', False)
        r, v = meth(it, getattr(core, cls)(), 'set', a)
        c.prove('refused with ValueError', r == 'exc' and isinstance(v, ValueError) and not box)

    def oracle(self, i):
        return chk_set(i['cls'], i['a_us'], None)


class Native(Unit):
    """every time text of a shape: all digit positions symbolic"""
    max_paths = 4000
    assumptions = ASSUME

    def __init__(self, cls, part, zone, frac):
        self.cls, self.part, self.zone, self.frac = cls, part, zone, frac
        self.name = '%s.native: %s%s%s' % (cls, part, ', %d fraction digits' % frac if frac else '', {'': ', local', 'Z': ', Z'}.get(zone, ', offset ' + zone))
        self.targets = ('asn1crypto.core.AbstractTime.native', 'asn1crypto.core.AbstractTime._parsed_time',
                        'asn1crypto.core.%s._get_datetime' % cls)
        self.covers = ('read', 'refused')
        if frac > 6:
            self.bounded_note = 'fractions of %d digits stand for longer ones' % frac

    def run(self, it):
        c = it.ctx
        it.native_contracts = times.natives()
        parts = []
        vals = {}

        def dig(name, w):
            v = c.in_int(name, 0, 10**w - 1)
            vals[name] = v.z
            parts.append(DecText(v.z, w))
        dig('year', 2 if self.cls == 'UTCTime' else 4)
        for n in ('month', 'day', 'hour') + {'h': (), 'hm': ('minute',), 'hms': ('minute', 'second')}[self.part]:
            dig(n, 2)
        if self.frac:
            parts.append('.' if c.choose(2) else ',')
            dig('fraction', self.frac)
        sg = 1
        if self.zone in ('hh', 'hhmm'):
            sg = (1, -1)[c.choose(2)]
            parts.append('+' if sg > 0 else '-')
            dig('dhour', 2)
            if self.zone == 'hhmm':
                dig('dminute', 2)
        elif self.zone:
            parts.append(self.zone)
        c.input('sign', sg)
        text = SStr(parts)
        it.contracts = dict(it.contracts, **{TEXT: lambda it_, f, a, k: text, 'asn1crypto.util.create_timezone': mk_tz})
        o = getattr(core, self.cls)()
        it.setattr(o, 'contents', b'\0')
        r, v = getp(it, o, 'native')
        y = vals['year']
        if self.cls == 'UTCTime':
            y = z3.If(y < 50, y + 2000, y + 1900)
        mo, d, h = vals['month'], vals['day'], vals['hour']
        mi, s = vals.get('minute', z3.IntVal(0)), vals.get('second', z3.IntVal(0))
        ok = z3.And(mo >= 1, mo <= 12, d >= 1, d <= times.month_days(mo, times.leap(y)), h < 24, mi < 60, s < 60)
        off = None
        if self.zone == 'Z':
            off = z3.IntVal(0)
        elif self.zone:
            dm = vals.get('dminute', z3.IntVal(0))
            ok = z3.And(ok, vals['dhour'] < 24, dm < 60)
            off = sg * (vals['dhour'] * 60 + dm) * MIN
        us = times.fields_us(y, mo, d, h, mi, s, z3.IntVal(0))
        unit = {'h': 3600, 'hm': 60, 'hms': 1}[self.part] * 10**6
        den = 10**self.frac
        fr = vals.get('fraction', z3.IntVal(0)) * unit
        if r == 'exc':
            c.cover('refused')
            c.prove('ValueError', isinstance(v, ValueError))
            c.prove('refused only when there is no such time', z3.Or(z3.Not(ok), us * den + fr > (MAXUS - 1) * den))
            return
        c.cover('read')
        c.prove('read only when there is such a time', ok)
        got = I(v.us) if isinstance(v, SDT) else I(v.__dict__['_y2k'].us) - times.D2000 if isinstance(v, ED) else None
        c.prove('a datetime', got is not None)
        c.prove('the instant denoted', z3.And(got * den - us * den - fr < den, us * den + fr - got * den < den))
        c.prove('zone and kind', is_value(it, v, got, off))

    def oracle(self, i):
        t = '%0*d%02d%02d%02d' % (2 if self.cls == 'UTCTime' else 4, i['year'], i['month'], i['day'], i['hour'])
        for k in ('minute', 'second'):
            if k in i:
                t += '%02d' % i[k]
        for sep in '.,':
            u = t
            if self.frac:
                u += '%s%0*d' % (sep, self.frac, i['fraction'])
            if self.zone == 'Z':
                u += 'Z'
            elif self.zone:
                u += '%s%02d' % ('+' if i['sign'] > 0 else '-', i['dhour'])
                if 'dminute' in i:
                    u += '%02d' % i['dminute']
            m = chk_text(self.cls, u)
            if m:
                return m
        return None


# ---------------------------------------------------------------------------------------------- bounded
def rinst(rng):
    y = rng.choice([0, 0, 1, 1, 2, 4, 99, 100, 999, 1000, 1899, 1900, 1949, 1950, 1999, 2000, 2049, 2050, 2100, 9999, 9999, rng.randrange(10000),
                    rng.randrange(1945, 2055)])
    k = rng.randrange(4)
    if k == 0:
        us = cal.micros(y, 1, 1) + rng.randrange(-3, 3) * rng.choice([1, 10**6, DAY])
    elif k == 1:
        us = cal.micros(y, 12, 31, 23, 59, 59, 999999) + rng.randrange(-2, 3) * rng.choice([1, 10**5, 10**6])
    else:
        us = cal.micros(y, rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60))
        us += rng.choice([0, 0, rng.randrange(10**6), 10 ** rng.randrange(6), 10 * rng.randrange(10**5), 999999])
    return max(Y0, min(MAXUS - 1, us))


class Stored(Bounded):
    name = 'storing datetimes'
    rule = 'instants around year, century and range boundaries at random offsets; distinct by wall clock, offset and class'
    seconds = 12

    def cases(self, rng, tier):
        for y in range(0, 10000, 1 if tier == 'thorough' else 37):
            yield 'GeneralizedTime', cal.micros(y, 3, 1) - DAY, 0
        for y in range(1948, 2052):
            for d in (0, -1):
                yield 'UTCTime', cal.micros(y, 1, 1) + d, 0
        while True:
            us, off = rinst(rng), roff(rng)
            if rng.random() < .1 and off:
                us += off
            yield rng.choice(('UTCTime', 'GeneralizedTime')), us, off

    def oracle(self, case):
        return chk_set(*case)


class Texts(Bounded):
    name = 'time texts'
    rule = 'valid BER texts, one-character changes of them, boundary fields; distinct by text'
    seconds = 12

    def cases(self, rng, tier):
        base = ['150102030405Z', '1501020304Z', '150102030405+0130', '1501020304-2359', '491231235959Z', '500101000000Z', '990101000000Z', '000101000000Z']
        gbase = ['20150102030405Z', '201501020304Z', '2015010203Z', '20150102030405.5Z', '2015010203.25Z', '201501020304,75Z', '20150102030405', '2015010203',
                 '20150102030405+01', '20150102030405-0130', '00000229000000Z', '00010101000000Z', '99991231235959.999999Z', '00001231235959.9999999Z',
                 '99991231235959.9999999Z', '9999123123.99999999999Z', '99991231235959.9999994Z', '00010101000000+2359', '99991231235959-2359',
                 '00000101000000+0001', '20150102030405.000Z', '20150102030405.100Z', '20150102030405.123456789Z', '19000229000000Z', '20000229000000Z']
        for cls, bs in (('UTCTime', base), ('GeneralizedTime', gbase)):
            for t in bs:
                yield cls, t
                for x in ('\n', ' ', '\0', 'Z', '0', '\u0661'):
                    yield cls, t + x
                    yield cls, x + t
                for i in range(len(t)):
                    for ch in ('0', '9', '6', '2', 'Z', '+', '-', '.', ',', ' ', ':', 'a', '\xb2', ''):
                        yield cls, t[:i] + ch + t[i + 1:]
        while True:
            cls = rng.choice(('UTCTime', 'GeneralizedTime'))
            t = '%0*d' % ((2, rng.randrange(100)) if cls == 'UTCTime' else (4, cal.civil(rinst(rng))[0]))
            t += '%02d%02d%02d' % (rng.choice([0, 1, 2, 12, 13, rng.randrange(1, 13)]), rng.choice([0, 1, 28, 29, 30, 31, 32, rng.randrange(1, 29)]),
                                   rng.choice([0, 23, 24, rng.randrange(24)]))
            for k in range(rng.randrange(3) if cls == 'GeneralizedTime' else rng.randrange(1, 3)):
                t += '%02d' % rng.choice([0, 59, 60, rng.randrange(60)])
            if cls == 'GeneralizedTime' and rng.random() < .4:
                t += rng.choice('.,') + rng.choice(['0', '5', '25', '999999', '9999999', '%d' % rng.randrange(10**rng.randrange(1, 15)), '000001', '10'])
            k = rng.randrange(5)
            if k < 2 or cls == 'UTCTime' and k == 4:
                t += 'Z'
            elif k < 4:
                t += rng.choice('+-') + '%02d' % rng.choice([0, 1, 12, 14, 23, 24]) + ('' if k == 3 and cls == 'GeneralizedTime' else '%02d' % rng.choice([0, 30, 59, 60, 99]))
            yield cls, t

    def oracle(self, case):
        return chk_text(*case)


class Zones(Bounded):
    name = 'time zones of full minutes'
    rule = 'every offset of full minutes from -25 to 25 hours, twice (cache); exhaustive'
    exhaustive = True
    seconds = 5

    def cases(self, rng, tier):
        for k in range(-1500, 1501):
            yield k

    def oracle(self, k):
        for _ in (0, 1):
            r, z = run(util.create_timezone, timedelta(minutes=k))
            if abs(k) >= 1440:
                if r != 'exc' or not isinstance(z, ValueError):
                    return 'offset of %d minutes accepted' % k
            elif r != 'ret' or z.utcoffset(datetime(2000, 1, 1)) != timedelta(minutes=k):
                return 'offset of %d minutes: %r' % (k, z)
        return None


class NoTzOffset(tzinfo):
    def utcoffset(self, dt):
        return None

    def dst(self, dt):
        return None


class Odd(Bounded):
    name = 'other values'
    rule = 'fixed list; distinct by index'
    exhaustive = True
    seconds = 3
    VALUES = [None, 5, 1.5, b'20150102030405Z', [], datetime(2015, 1, 1), datetime(2015, 1, 1, tzinfo=NoTzOffset()), datetime(1, 1, 1).date(),
              timedelta(1), util.extended_date(0, 1, 1), util.extended_datetime(0, 1, 1), util.extended_datetime(0, 1, 1, tzinfo=NoTzOffset())]

    def cases(self, rng, tier):
        for cls in TAGS:
            for i in range(1, len(self.VALUES)):
                yield cls, i

    def oracle(self, case):
        cls, i = case
        r, v = run(getattr(core, cls), self.VALUES[i])
        if r != 'exc' or isinstance(v, OverflowError):
            return '%s(%r) gives %r' % (cls, self.VALUES[i], v)
        return None


UNITS = [Set('UTCTime', 'real'), Set('GeneralizedTime', 'real'), Set('GeneralizedTime', 'ext'), Naive]
for _p in ('hm', 'hms'):
    for _z in ('Z', 'hhmm'):
        UNITS.append(Native('UTCTime', _p, _z, 0))
for _p in ('h', 'hm', 'hms'):
    for _z in ('', 'Z', 'hh', 'hhmm'):
        UNITS.append(Native('GeneralizedTime', _p, _z, 0))
    for _f in (1, 2, 3, 6, 7, 9):
        UNITS.append(Native('GeneralizedTime', _p, 'Z', _f))
BOUNDED = [Stored, Texts, Zones, Odd]
