"""C01: header encoding is the unique minimal DER form and inverts parsing."""
from .common import *  # noqa
from oracle import x690

MAXLEN = 1 << 64


def enc_templates(env):
    """loops that peel base-128 digits off an integer and prepend them to a byte string"""
    c = env.ctx
    out, var = [], []
    for t in env.ints:
        out.append(('%s >= 0' % t, lambda e, t=t: e.c(t) >= 0))
        var.append((t, lambda e, t=t: e.c(t)))
        for h in env.bytess:
            def ln(e, h):
                return bound(blen(e.cb(h)))
            if env.entry[h] != b'' if isinstance(env.entry[h], bytes) else True:
                # digits prepended to what is already there: t * 128^n + V(h) is constant
                n0 = bound(blen(env.entry[h]))
                out.append(('%s, %s: total constant' % (h, t), lambda e, t=t, h=h: (
                    e.e(t) * bound(theory.p128(c, blen(e.eb(h)))) + bound(theory.v128(c, e.eb(h))) ==
                    e.c(t) * bound(theory.p128(c, blen(e.cb(h)))) + bound(theory.v128(c, e.cb(h))))))
                out.append(('%s: high bits' % h, lambda e, h=h: theory.all_high(e.cb(h), simp(ln(e, h) - 1))))
                out.append(('%s: low end' % h, lambda e, h=h: z3.And(
                    ln(e, h) >= 1, theory.rope_sel(e.cb(h), simp(ln(e, h) - 1)) < 128,
                    theory.rope_sel(e.cb(h), simp(ln(e, h) - 1)) >= 0)))
                out.append(('%s: grows' % h, lambda e, h=h, n0=n0: ln(e, h) >= n0))
                out.append(('%s: lead' % h, lambda e, t=t, h=h, n0=n0: z3.Implies(
                    z3.And(ln(e, h) > n0, e.c(t) == 0), theory.rope_sel(e.cb(h), 0) % 128 != 0)))
                out.append(('%s: untouched' % h, lambda e, t=t, h=h, n0=n0: z3.Implies(
                    ln(e, h) == n0, z3.And(e.c(t) == e.e(t), theory.rope_sel(e.cb(h), 0) == theory.rope_sel(e.eb(h), 0)))))
                continue
            out.append(('%s: entry == %s*128^n + V' % (h, t), lambda e, t=t, h=h: e.e(t) == e.c(t) * bound(
                theory.p128(c, blen(e.cb(h)))) + bound(theory.v128(c, e.cb(h)))))
            out.append(('%s: high bits' % h, lambda e, h=h: theory.all_high(e.cb(h), simp(ln(e, h) - 1))))
            out.append(('%s: low end' % h, lambda e, h=h: z3.Implies(ln(e, h) >= 1, z3.And(
                theory.rope_sel(e.cb(h), simp(ln(e, h) - 1)) < 128,
                theory.rope_sel(e.cb(h), simp(ln(e, h) - 1)) >= 0))))
            out.append(('%s: lead' % h, lambda e, t=t, h=h: z3.Implies(z3.And(ln(e, h) >= 1, e.c(t) == 0),
                        theory.rope_sel(e.cb(h), 0) % 128 != 0)))
            out.append(('%s: empty' % h, lambda e, t=t, h=h: z3.Implies(ln(e, h) == 0, e.c(t) == e.e(t))))
            for f in env.ints:
                if f != t:
                    out.append(('%s flags %s' % (f, h), lambda e, f=f, h=h: z3.And(
                        (e.c(f) == 0) == (ln(e, h) == 0), z3.Or(e.c(f) == 0, e.c(f) == 128))))
    return out, var


def length_octets(it, L):
    """number of length octets after the first (0 for short form), by cases; proves nothing"""
    c = it.ctx
    if c.branch(Z(L) <= 127):
        return 0
    for k in range(1, 9):
        if c.branch(Z(L) < 256 ** k):
            return k
    raise Unsupported('length')


def prove_header(it, name, hdr, cls, method, tag, L):
    """hdr is the unique minimal DER header for the given parts"""
    c = it.ctx
    p = c.prove
    if not is_bytes(hdr):
        p(name + ': header is bytes', False)
    k = length_octets(it, L)
    n = bound(blen(hdr))
    if c.branch(Z(tag) < 31):
        p(name + ': low tag header size', n == 2 + k)
        p(name + ': identifier octet', at(it, hdr, 0) == Z(cls) * 64 + Z(method) * 32 + Z(tag))
        t = 1
        c.cover('low tag')
    else:
        t = simp(n - 1 - k)          # first octet + tag octets
        p(name + ': room for tag octets', t >= 2)
        p(name + ': identifier octet', at(it, hdr, 0) == Z(cls) * 64 + Z(method) * 32 + 31)
        body = slc(it, hdr, 1, t)
        m = bound(blen(body))
        p(name + ': tag octets continue', theory.all_high(body, simp(m - 1)))
        p(name + ': last tag octet ends', at(it, body, simp(m - 1)) < 128)
        p(name + ': tag value', bound(theory.v128(c, body)) == Z(tag))
        p(name + ': tag octets minimal', at(it, body, 0) != 128)
        c.cover('high tag')
    lo = slc(it, hdr, t, None)
    if k == 0:
        p(name + ': short length', at(it, lo, 0) == Z(L))
        c.cover('short length')
    else:
        p(name + ': long length form', at(it, lo, 0) == 128 + k)
        lv = slc(it, lo, 1, None)
        p(name + ': length octet count', bound(blen(lv)) == k)
        p(name + ': length value', bound(c.u256(lv)) == Z(L))
        p(name + ': length minimal', at(it, lv, 0) != 0)
        c.cover('long length')


class DumpHeader(Unit):
    name = 'parser._dump_header'
    targets = ('asn1crypto.parser._dump_header', 'asn1crypto.util.int_to_bytes')
    loop_templates = (enc_templates,)
    termination = True
    covers = ('low tag', 'high tag', 'short length', 'long length')

    def run(self, it):
        c = it.ctx
        cls, method, tag = c.in_int('class_', 0, 3), c.in_int('method', 0, 1), c.in_int('tag', 0)
        contents = c.in_bytes('contents', 0, MAXLEN - 1)
        k, r = outcome(it, parser._dump_header, cls, method, tag, contents)
        c.prove('no exception', k == 'ret')
        prove_header(it, 'header', r, cls, method, tag, SInt(bound(blen(contents))))

    def oracle(self, i):
        return chk_emit(i['class_'], i['method'], i['tag'], i['contents'])


class Emit(Unit):
    name = 'parser.emit'
    targets = ('asn1crypto.parser.emit',)
    loop_templates = (enc_templates,)
    termination = True
    covers = ('low tag', 'high tag', 'refused')

    def run(self, it):
        c = it.ctx
        cls, method, tag = c.in_int('class_'), c.in_int('method'), c.in_int('tag')
        contents = c.in_bytes('contents', 0, MAXLEN - 1)
        ok = z3.And(Z(cls) >= 0, Z(cls) <= 3, Z(method) >= 0, Z(method) <= 1, Z(tag) >= 0)
        k, r = outcome(it, parser.emit, cls, method, tag, contents)
        if k == 'exc':
            c.cover('refused')
            c.prove('refusal only of out-of-range arguments', z3.Not(ok))
            c.prove('refusal is a ValueError or TypeError', isinstance(r, (ValueError, TypeError)))
            return
        c.prove('out-of-range arguments refused', ok)
        if not is_bytes(r):
            c.prove('returns bytes', False)
        L = bound(blen(contents))
        hl = simp(bound(blen(r)) - L)
        c.prove('output is at least as long as the contents', hl >= 2)
        hdr, body = slc(it, r, 0, hl), slc(it, r, hl, None)
        c.prove('contents unchanged', beq(it, body, contents))
        prove_header(it, 'header', hdr, cls, method, tag, SInt(L))

    def oracle(self, i):
        return chk_emit(i['class_'], i['method'], i['tag'], i['contents'])


class EmitTypes(Unit):
    name = 'parser.emit types'
    targets = ('asn1crypto.parser.emit',)

    def run(self, it):
        c = it.ctx
        good = [c.in_int('class_', 0, 3), c.in_int('method', 0, 1), c.in_int('tag', 0), c.in_bytes('contents', 0, 1000)]
        bad = [None, 'x', 1.5, (), [], b'x']
        i = c.choose(4)
        j = c.choose(len(bad))
        if i == 3 and j == 5:
            bad[j] = c.in_int('n')
        good[i] = bad[j]
        c.input('bad', (i, j))
        k, r = outcome(it, parser.emit, *good)
        c.prove('wrongly typed argument refused', k == 'exc' and isinstance(r, (TypeError, ValueError)))

    def oracle(self, i):
        vals = [i['class_'], i['method'], i['tag'], i['contents']]
        a, j = i['bad']
        bad = [None, 'x', 1.5, (), [], b'x']
        vals[a] = i.get('n', 0) if a == 3 and j == 5 else bad[j]
        try:
            parser.emit(*vals)
        except (TypeError, ValueError):
            return None
        except Exception as e:
            return 'emit(%r) raised %r' % (vals, e)
        return 'emit(%r) accepted a wrongly typed argument' % (vals,)


def header_hypothesis(it, data, cls, method, tag, n, k, L):
    """the first bytes of data are the minimal header: n tag octets (0 = low tag form), k length octets.
    Returns header length."""
    c = it.ctx
    if n is None:
        c.assume(z3.And(Z(tag) >= 0, Z(tag) < 31))
        c.assume(at(it, data, 0) == Z(cls) * 64 + Z(method) * 32 + Z(tag))
        t = 1
    else:
        c.assume(Z(tag) >= 31)
        c.assume(at(it, data, 0) == Z(cls) * 64 + Z(method) * 32 + 31)
        a = data.atoms[0]
        body = SBytes([View(a.arr, addz(a.off, 1), n.z)])
        c.assume(n.z >= 1)
        c.assume(theory.all_high(body, simp(n.z - 1)))
        c.assume(z3.Select(a.arr, simp(bound(a.off) + n.z)) < 128)
        c.byte(a.arr, simp(bound(a.off) + n.z))
        c.assume(bound(theory.v128(c, body)) == Z(tag))
        c.assume(z3.Select(a.arr, bound(addz(a.off, 1))) != 128)
        c.byte(a.arr, bound(addz(a.off, 1)))
        t = simp(1 + n.z)
    a = data.atoms[0]
    if k == 0:
        c.assume(z3.And(L.z >= 0, L.z <= 127))
        c.assume(c.byte(a.arr, addz(a.off, t)) == L.z)
        return addz(t, 1)
    c.assume(c.byte(a.arr, addz(a.off, t)) == 128 + k)
    c.assume(bound(c.u256_view(a.arr, addz(a.off, addz(t, 1)), k)) == L.z)
    return addz(t, 1 + k)


def dec_templates(env):
    """loops that accumulate base-128 digits read from a byte string at an advancing index"""
    c = env.ctx
    out, var = [], []
    for p in env.ints:
        out.append(('%s >= entry' % p, lambda e, p=p: e.c(p) >= e.e(p)))
        for d in env.fixed_bytes:
            if isinstance(env.entry[d], bytes) or len(env.entry[d].atoms) != 1 or not isinstance(
                    env.entry[d].atoms[0], View):
                continue
            a = env.entry[d].atoms[0]
            out.append(('%s <= len(%s)' % (p, d), lambda e, p=p, a=a: e.c(p) <= bound(a.len)))
            var.append(('len(%s)-%s' % (d, p), lambda e, p=p, a=a: bound(a.len) - e.c(p)))

            def piece(e, p, a):
                return SBytes([View(a.arr, addz(a.off, simp(e.e(p))), simp(e.c(p) - e.e(p)))])

            def high(e, p, a):
                i = z3.Int('i!high')
                s = bound(a.off)
                return z3.ForAll([i], z3.Implies(z3.And(i >= s + e.e(p), i < s + e.c(p)), z3.Select(a.arr, i) >= 128),
                                 patterns=[z3.Select(a.arr, i)])
            out.append(('%s: high bits of %s' % (p, d), lambda e, p=p, a=a: high(e, p, a)))
            out.append(('%s: first octet of %s carries a digit' % (p, d), lambda e, p=p, a=a: z3.Implies(
                e.c(p) > e.e(p), z3.Select(a.arr, bound(addz(a.off, simp(e.e(p))))) != 128)))
            for t in env.ints:
                if t == p:
                    continue
                out.append(('%s == V128(%s, %s)' % (t, d, p), lambda e, t=t, p=p, a=a: e.c(t) == bound(
                    theory.v128_view(c, a.arr, addz(a.off, simp(e.e(p))), simp(e.c(p) - e.e(p))))))
                out.append(('%s == 0 iff %s at entry' % (t, p), lambda e, t=t, p=p: (e.c(t) == 0) == (e.c(p) == e.e(p))))
                out.append(('%s >= 0' % t, lambda e, t=t: e.c(t) >= 0))
    return out, var


class ParseMinimal(Unit):
    """see name"""
    hi = 0
    kks = (0, 1, 2)
    cost = 5

    def __init__(self, hi, kks):
        self.hi, self.kks = hi, kks
        self.name = 'parser.parse of minimal headers (%s tag form, %s length octets)' % (
            'high' if hi else 'low', '/'.join(map(str, kks)))
        self.covers = ('high' if hi else 'low',)
    # parsing any data that starts with a minimal definite header returns exactly the parts it encodes
    # (with DumpHeader this makes emit and parse inverse)
    targets = ('asn1crypto.parser.parse', 'asn1crypto.parser._parse')
    loop_templates = (dec_templates,)
    termination = True

    def run(self, it):
        c = it.ctx
        cls, method, tag = c.in_int('class_', 0, 3), c.in_int('method', 0, 1), c.in_int('tag', 0)
        L = c.fresh_int('L', 0)
        kk = self.kks[c.choose(len(self.kks))]
        data = c.in_bytes('data', 2)
        hi = self.hi
        n = c.fresh_int('n', 1) if hi else None
        c.cover('high' if hi else 'low')
        if kk:
            c.assume(L.z < 256 ** kk)
        h = header_hypothesis(it, data, cls, method, tag, n, kk, L)
        extra = c.in_bool('trailing data')
        total = simp(bound(h) + L.z)
        ln = bound(blen(data))
        c.assume(z3.If(extra.z, ln > total, ln == total))
        strict = c.in_bool('strict')
        k, r = outcome(it, parser.parse, data, strict=strict)
        if k == 'exc':
            c.prove('strict refuses trailing data only', z3.And(strict.z, extra.z))
            c.prove('strict refusal is ValueError', isinstance(r, ValueError))
            return
        c.prove('strict refuses trailing data', z3.Not(z3.And(strict.z, extra.z)))
        if not (isinstance(r, tuple) and len(r) == 6):
            c.prove('six parts returned', False)
        c.prove('class', Z(r[0]) == Z(cls))
        c.prove('method', Z(r[1]) == Z(method))
        c.prove('tag', Z(r[2]) == Z(tag))
        c.prove('header', beq(it, r[3], slc(it, data, 0, h)))
        c.prove('contents', beq(it, r[4], slc(it, data, h, total)))
        c.prove('trailer empty', beq(it, r[5], b''))
        k, r = outcome(it, parser.peek, data)
        c.prove('peek succeeds', k == 'ret')
        c.prove('peek reports the encoded size', Z(r) == total)

    def oracle(self, i):
        return chk_parse(i['data'], i['strict'])


class ParseTruncated(Unit):
    """every proper prefix of a definite-length value is refused"""
    name = 'parser.parse of truncated values'
    targets = ('asn1crypto.parser.parse', 'asn1crypto.parser.peek', 'asn1crypto.parser._parse')
    loop_templates = (dec_templates,)

    def run(self, it):
        c = it.ctx
        cls, method, tag = c.in_int('class_', 0, 3), c.in_int('method', 0, 1), c.in_int('tag', 0)
        L = c.fresh_int('L', 0)
        kk = c.choose(9)
        full = c.fresh_bytes('full', 2)
        hi = c.choose(2)
        n = c.fresh_int('n', 1) if hi else None
        if kk:
            c.assume(L.z < 256 ** kk)
        h = header_hypothesis(it, full, cls, method, tag, n, kk, L)
        total = simp(bound(h) + L.z)
        m = c.fresh_z('m')
        c.assume(z3.And(m >= 0, m < total))
        a = full.atoms[0]
        data = c.input('data', SBytes([View(a.arr, a.off, m)]))
        f = [parser.parse, parser.peek][c.choose(2)]
        k, r = outcome(it, f, data)
        c.prove('truncated value refused', k == 'exc')
        c.prove('refusal is ValueError', isinstance(r, ValueError))

    def oracle(self, i):
        return chk_parse(i['data'], False)


def chk_emit(cls, method, tag, contents):
    ok = 0 <= cls <= 3 and 0 <= method <= 1 and tag >= 0
    try:
        r = parser.emit(cls, method, tag, contents)
    except (ValueError, TypeError) as e:
        return None if not ok else 'emit(%d, %d, %d, %d bytes) refused: %r' % (cls, method, tag, len(contents), e)
    if not ok:
        return 'emit(%d, %d, %d, ...) accepted out-of-range arguments' % (cls, method, tag)
    want = x690.emit(cls, method, tag, contents)
    if r != want:
        return 'emit(%d, %d, %d, %d bytes) gave %s..., DER is %s...' % (
            cls, method, tag, len(contents), r[:24].hex(), want[:24].hex())
    p = parser.parse(r, strict=True)
    hl = len(want) - len(contents)
    if p != (cls, method, tag, want[:hl], contents, b''):
        return 'parse(emit(%d, %d, %d, %d bytes)) gave %r' % (cls, method, tag, len(contents), p[:4])
    if parser.peek(r + b'\x00') != len(r):
        return 'peek disagrees with emit'
    return None


def chk_parse(data, strict=False):
    """parse/peek agree with the reference reading of X.690 on this byte string"""
    try:
        want, end = x690.parse(data)
    except x690.Bad:
        want = end = None
    for f, exp in ((lambda: parser.parse(data, strict=strict), want if want is None or not (strict and end != len(data))
                    else None),
                   (lambda: parser.peek(data), end if want is not None else None)):
        try:
            got = f()
        except ValueError as e:
            got = None
        except Exception as e:
            return 'decoding %s raised %r' % (data[:40].hex(), e)
        if got != exp:
            return 'decoding %s (strict=%s) gave %r, X.690 says %r' % (data[:40].hex(), strict, got, exp)
    return None


class EmitCases(Bounded):
    name = 'emit/parse/peek against the X.690 reference'
    rule = 'random and boundary class, method, tag and contents length; distinct by (class, method, tag, length)'
    seconds = 8

    def cases(self, rng, tier):
        for tag in gen.TAGS:
            for n in gen.LENGTHS:
                yield rng.randrange(4), rng.randrange(2), tag, gen.rbytes(rng, n)
        for tag in range(0, 300):
            yield rng.randrange(4), rng.randrange(2), tag, b''
        for n in range(0, 700):
            yield 0, 0, 4, b'\xaa' * n
        for n in (2 ** 24 - 1, 2 ** 24):
            yield 2, 1, 40, b'\x01' * n
        for bad in ((4, 0, 1), (-1, 0, 1), (0, 2, 1), (0, -1, 1), (0, 0, -1), (0, 0, -2 ** 70)):
            yield bad + (b'x',)
        while True:
            yield rng.randrange(4), rng.randrange(2), gen.rtag(rng), gen.rbytes(rng, rng.choice([rng.randrange(300), 3]))

    def oracle(self, case):
        return chk_emit(*case)

    def key(self, case):
        return case[:3] + (len(case[3]),)


UNITS = [DumpHeader, Emit, EmitTypes, ParseMinimal(0, (0, 1, 2, 3, 4)), ParseMinimal(0, (5, 6, 7, 8)),
         ParseMinimal(1, (0, 1, 2)), ParseMinimal(1, (3, 4)), ParseMinimal(1, (5, 6)), ParseMinimal(1, (7, 8)),
         ParseTruncated]
BOUNDED = [EmitCases]
ASSUMPTIONS = ['contents shorter than 2**64 bytes']
