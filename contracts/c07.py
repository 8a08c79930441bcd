"""C07: octet, integer-valued octet and character strings round-trip exactly."""
from .common import *  # noqa
from oracle import x690
import copy

BIG = 1 << 40

# T.61 (CCITT): the 8-bit code; code points 0x24/0x23 sit at 0xA4/0xA6.  None: not assigned.
T61 = {}
for _i in list(range(0x00, 0x23)) + list(range(0x25, 0x5c)) + [0x5d, 0x5f] + list(range(0x61, 0x7b)) + [0x7c] + \
        list(range(0x7f, 0xa4)) + [0xa5, 0xa7, 0xab]:
    T61[_i] = chr(_i)
T61.update({0xa4: '$', 0xa6: '#', 0xa8: '\u00a4'})
for _i in (0xb0, 0xb1, 0xb2, 0xb3, 0xb5, 0xb6, 0xb7, 0xbb, 0xbc, 0xbd, 0xbe, 0xbf):
    T61[_i] = chr(_i)
T61.update({0xb4: '\u00d7', 0xb8: '\u00f7'})
T61.update(zip([0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf],
               '\u0300\u0301\u0302\u0303\u0304\u0306\u0307\u0308\u030a\u0327\u0332\u030b\u0328\u030c'))
T61.update(zip(range(0xe0, 0xe5), '\u2126\u00c6\u00d0\u00aa\u0126'))
T61.update(zip(range(0xe6, 0xff), '\u0132\u013f\u0141\u00d8\u0152\u00ba\u00de\u0166\u014a\u0149\u0138\u00e6\u0111\u00f0'
               '\u0127\u0131\u0133\u0140\u0142\u00f8\u0153\u00df\u00fe\u0167\u014b'))
T61_BACK = dict((v, k) for k, v in T61.items())


def enc_latin1(t):
    return bytes(map(ord, t)) if all(ord(ch) < 256 for ch in t) else None


def enc_ascii(t):
    return bytes(map(ord, t)) if all(ord(ch) < 128 for ch in t) else None


def enc_t61(t):
    return bytes(T61_BACK[ch] for ch in t) if all(ch in T61_BACK for ch in t) else None


def surrogates(t):
    return any(0xd800 <= ord(ch) < 0xe000 for ch in t)


def enc_utf8(t):
    if surrogates(t):
        return None
    out = bytearray()
    for ch in t:
        c = ord(ch)
        if c < 0x80:
            out.append(c)
        elif c < 0x800:
            out += bytes([0xc0 | c >> 6, 0x80 | c & 63])
        elif c < 0x10000:
            out += bytes([0xe0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63])
        else:
            out += bytes([0xf0 | c >> 18, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63])
    return bytes(out)


def enc_utf32(t):
    return None if surrogates(t) else b''.join(bytes([0, ord(c) >> 16, ord(c) >> 8 & 255, ord(c) & 255]) for c in t)


def enc_utf16(t):
    if surrogates(t):
        return None
    out = bytearray()
    for ch in t:
        c = ord(ch)
        for u in ([c] if c < 0x10000 else [0xd800 | (c - 0x10000) >> 10, 0xdc00 | (c - 0x10000) & 0x3ff]):
            out += bytes([u >> 8, u & 255])
    return bytes(out)


# class -> (universal tag, codec name for the symbolic units, reference encoder)
TYPES = {
    'UTF8String': (12, 'utf-8', enc_utf8), 'NumericString': (18, 'latin1', enc_latin1),
    'PrintableString': (19, 'latin1', enc_latin1), 'TeletexString': (20, 'teletex', enc_t61),
    'IA5String': (22, 'ascii', enc_ascii), 'GraphicString': (25, 'latin1', enc_latin1),
    'VisibleString': (26, 'latin1', enc_latin1), 'GeneralString': (27, 'latin1', enc_latin1),
    'UniversalString': (28, 'utf-32-be', enc_utf32), 'CharacterString': (29, 'latin1', enc_latin1),
    'BMPString': (30, 'utf-16-be', enc_utf16),
}


class TextSet(Unit):
    targets = ('asn1crypto.core.AbstractString.set', 'asn1crypto.core.AbstractString.__unicode__')
    covers = ('stored', 'not in the repertoire')

    def __init__(self, cls):
        self.cls = cls
        self.name = cls + ': any text'
        self.assumptions = ('the %s codec of the runtime is an injective pair of encoder and decoder' % TYPES[cls][1],)

    def run(self, it):
        c = it.ctx
        cls = getattr(core, self.cls)
        tag, codec, _ = TYPES[self.cls]
        text = SStr([OpaqueText('text', c.fresh_int('length', 0))])
        hist = c.choose(3)
        if hist == 0:
            o = cls()
        elif hist == 1:
            o = cls.load(x690.emit(0, 0, tag, TYPES[self.cls][2]('12')))
        else:
            o = cls.load(x690.identifier(0, 1, tag) + b'\x80\x04\x00\x00\x00'.replace(b'\x04\x00', x690.emit(0, 0, tag, TYPES[self.cls][2]('34'))))
        if hist:
            o.native, str(o), o.dump()
        k, want = outcome(it, lambda: None) if False else (None, None)
        try:
            want = it.models.codec_encode(it, text, codec)
        except PyRaise:
            want = None
        before = o.__dict__.get('contents'), o.__dict__.get('_unicode')
        k, r = meth(it, o, 'set', text)
        if want is None:
            c.cover('not in the repertoire')
            c.prove('refused', k == 'exc' and isinstance(r, ValueError))
            c.prove('a refused value changes nothing', (o.__dict__.get('contents'), o.__dict__.get('_unicode')) == before)
            return
        c.cover('stored')
        c.prove('accepted', k == 'ret')
        con = it.getattr(o, 'contents')
        c.prove('contents are the text in the encoding of the type', is_bytes(con) and beq(it, con, want))
        k, n = getp(it, o, 'native')
        c.prove('native is the text', k == 'ret' and Z(it.models.eq(it, n, text)))
        k, n = outcome(it, str, o)
        c.prove('str is the text', k == 'ret' and Z(it.models.eq(it, n, text)))
        c.prove('primitive and definite', z3.And(z3.BoolVal(o.__dict__.get('_indefinite', False) is False),
                                                 z3.BoolVal(it.getattr(o, 'method') == 0),
                                                 z3.BoolVal(it.getattr(o, '_trailer') == b'')))
        p = cls()
        it.setattr(p, 'contents', con)
        k, n = getp(it, p, 'native')
        c.prove('decodes to the text', k == 'ret' and Z(it.models.eq(it, n, text)))

    def gen(self, rng):
        return {'text': rtext(rng)}

    def oracle(self, i):
        return chk_text(self.cls, i['text']) if 'text' in i else None


class OctetSet(Unit):
    targets = ('asn1crypto.core.OctetString.set', 'asn1crypto.core.ParsableOctetString.set')
    covers = ('stored',)

    def __init__(self, cls):
        self.cls = cls
        self.name = cls + ': any byte string'

    def run(self, it):
        c = it.ctx
        cls = getattr(core, self.cls)
        b = c.in_bytes('bytes', 0)
        hist = c.choose(3)
        o = cls() if not hist else cls.load([None, b'\x04\x03\x02\x01\x05', b'\x24\x80\x04\x02\x02\x01\x04\x01\x05\0\0'][hist])
        if hist:
            o.native, bytes(o), o.dump()
            if self.cls == 'ParsableOctetString':
                o.parsed
        k, r = meth(it, o, 'set', b)
        c.cover('stored')
        c.prove('accepted', k == 'ret')
        c.prove('contents', beq(it, it.getattr(o, 'contents'), b))
        k, n = getp(it, o, 'native')
        c.prove('native', k == 'ret' and is_bytes(n) and beq(it, n, b))
        k, n = outcome(it, bytes, o)
        c.prove('bytes()', k == 'ret' and is_bytes(n) and beq(it, n, b))
        if self.cls == 'ParsableOctetString':
            c.prove('the parsed value of the old bytes is forgotten', o.__dict__.get('_parsed') is None)
        c.prove('primitive and definite', z3.And(z3.BoolVal(o.__dict__.get('_indefinite', False) is False),
                                                 z3.BoolVal(it.getattr(o, 'method') == 0),
                                                 z3.BoolVal(it.getattr(o, '_trailer') == b'')))
        p = cls()
        it.setattr(p, 'contents', it.getattr(o, 'contents'))
        k, n = getp(it, p, 'native')
        c.prove('decodes to the same bytes', k == 'ret' and is_bytes(n) and beq(it, n, b))

    def oracle(self, i):
        return chk_octets(i['bytes'])


class IntegerOctets(Unit):
    name = 'IntegerOctetString: any integer, any width'
    targets = ('asn1crypto.core.IntegerOctetString.set', 'asn1crypto.core.IntegerOctetString.set_encoded_width')
    covers = ('negative', 'minimal', 'fixed width', 'too wide')

    def run(self, it):
        c = it.ctx
        v = c.in_int('value')
        o = core.IntegerOctetString() if c.choose(2) else core.IntegerOctetString.load(b'\x24\x80\x04\x01\x07\0\0')
        o.native
        mode = c.choose(3)
        w = None
        if mode:
            w = c.in_int('width', 1, BIG)
        c.input('mode', mode)
        if mode == 1:
            o.__dict__['_encoded_width'] = w
        k, r = meth(it, o, 'set', v)
        if c.branch(v.z < 0):
            c.cover('negative')
            c.prove('negative refused with ValueError', k == 'exc' and isinstance(r, ValueError))
            return
        if mode == 2:
            c.prove('accepted', k == 'ret')
            k, r = meth(it, o, 'set_encoded_width', w)
        fits = z3.BoolVal(True) if not mode else v.z < bound(c.p256(w.z))
        if k == 'exc':
            c.cover('too wide')
            c.prove('refused with OverflowError or ValueError', isinstance(r, (OverflowError, ValueError)))
            c.prove('only integers too wide refused', z3.Not(fits))
            return
        c.prove('integers too wide refused', fits)
        con = it.getattr(o, 'contents')
        c.prove('contents are bytes', is_bytes(con))
        n = bound(blen(con))
        if mode:
            c.cover('fixed width')
            c.prove('exact width', n == w.z)
        else:
            c.cover('minimal')
            c.prove('no needless octet', z3.And(n >= 1, z3.Or(n == 1, at(it, con, 0) != 0)))
        c.prove('value', bound(c.u256(con)) == v.z)
        k, t = getp(it, o, 'native')
        c.prove('native', k == 'ret' and is_int(t) and Z(t) == v.z)
        p = core.IntegerOctetString()
        it.setattr(p, 'contents', con)
        k, t = getp(it, p, 'native')
        c.prove('decodes to the integer', k == 'ret' and is_int(t) and Z(t) == v.z)

    def oracle(self, i):
        w = i.get('width')
        if w is not None and w > 5000:
            return None
        return chk_integer(i['value'], w if i['mode'] else None, i['mode'] == 2)


# ---- runtime contracts

def views(o):
    r = [o.contents, o.native, o.dump()]
    r.append(bytes(o) if isinstance(o, (core.OctetString, core.ParsableOctetString)) else str(o))
    return r


def histories(cls, tag, a, b):
    """objects of the class with different pasts, all holding the chunks a ++ b"""
    whole = x690.emit(0, 0, tag, a + b)
    chunked = x690.identifier(0, 1, tag) + b'\x80' + x690.emit(0, 0, tag, a) + x690.emit(0, 0, tag, b) + b'\0\0'
    yield cls()
    for d in (whole, chunked):
        yield cls.load(d)
        o = cls.load(d)
        o.native, str(o), o.dump()
        yield o
        yield o.copy()
        yield cls.load(x690.emit(2, 1, 3, d), explicit=3)
    yield cls.load(x690.emit(2, 0, 7, a + b), implicit=7)


def header_of(o, tag):
    return tag


def expect_dump(o, tag, con):
    if o.explicit:
        return x690.emit(2, 1, 3, x690.emit(0, 0, tag, con))
    if o.implicit:
        return x690.emit(2, 0, 7, con)
    return x690.emit(0, 0, tag, con)


def chk_text(name, text):
    cls = getattr(core, name)
    tag, _, enc = TYPES[name]
    want = enc(text)
    for j, o in enumerate(histories(cls, tag, enc('12'), enc('34'))):
        before = None
        if o.contents is not None and want is None:
            views(o)
            before = views(o)
        try:
            o.set(text)
        except ValueError as e:
            if want is not None:
                return '%s refuses %r: %r' % (name, text, e)
            if before is not None and views(o) != before:
                return '%s: refused %r changed the value to %r' % (name, text, o.native)
            continue
        if want is None:
            return '%s accepts %r as %s' % (name, text, o.contents.hex())
        d = expect_dump(o, tag, want)
        if o.contents != want or o.native != text or str(o) != text or o.dump() != d or o.dump(force=True) != d:
            return '%s history %d set(%r): contents %s native %r str %r dump %s' % (
                name, j, text, o.contents.hex(), o.native, str(o), o.dump().hex())
        if o.native != text or o.copy().native != text:
            return '%s history %d: %r changes when it is dumped or copied' % (name, j, text)
    if want is not None:
        d = x690.emit(0, 0, tag, want)
        for l in (cls.load(d, strict=True), core.load(d), cls(text)):
            if l.native != text or str(l) != text or l.dump() != d:
                return '%s: %s decodes to %r, not %r' % (name, d.hex(), l.native, text)


def chk_octets(b):
    for name, tag in (('OctetString', 4), ('ParsableOctetString', 4), ('VideotexString', 21), ('ParsableOctetBitString', 3)):
        cls = getattr(core, name)
        con = b'\x00' + b if tag == 3 else b
        hs = [cls(), cls.load(x690.emit(0, 0, tag, b'\x00' * (tag == 3) + b'\x02\x01\x05'))]
        hs.append(hs[1].copy())
        hs.append(cls.load(x690.identifier(0, 1, tag) + b'\x80' + x690.emit(0, 0, tag, b'\x00' * (tag == 3) + b'\x02\x01\x05') + b'\0\0'))
        hs.append(cls(b'zz'))
        for j, o in enumerate(hs):
            if j:
                bytes(o), o.native, o.dump()
                if isinstance(o, (core.ParsableOctetString, core.ParsableOctetBitString)) and j != 4:
                    o.parsed, o.native
            o.set(b)
            d = x690.emit(0, 0, tag, con)
            if bytes(o) != b or o.native != b or o.contents != con or o.dump() != d or o.dump(force=True) != d:
                return '%s history %d set(%r): bytes %r native %r dump %s' % (name, j, b, bytes(o), o.native, o.dump().hex())
            l = cls.load(d, strict=True)
            if bytes(l) != b or l.native != b or l.copy().native != b or l.dump(force=True) != d:
                return '%s: %s decodes to %r' % (name, d.hex(), l.native)


def chk_parsed(v):
    """assigning the encoding of a value: the parsed view is that of the new bytes"""
    for name, tag in (('ParsableOctetString', 4), ('ParsableOctetBitString', 3)):
        cls = getattr(core, name)
        old = cls(core.Utf8String('old').dump() if hasattr(core, 'Utf8String') else core.UTF8String('old').dump())
        if old.parsed.native != 'old' or old.native != 'old':
            return '%s: parsed %r' % (name, old.parsed.native)
        new = core.Integer(v).dump()
        old.set(new)
        if bytes(old) != new or old.parsed.native != v or old.native != v or old.parsed.dump() != new:
            return '%s: after set the parsed value is %r, not %r' % (name, old.parsed.native, v)
        if old.dump() != x690.emit(0, 0, tag, b'\x00' * (tag == 3) + new) or old.dump(force=True) != old.dump():
            return '%s: dump after set is %s' % (name, old.dump().hex())
        if bytes(old) != new or old.native != v:
            return '%s: forced dump changed the value' % name
        p = cls(parsed=core.Integer(v))
        if bytes(p) != new or p.parsed.native != v or p.native != v:
            return '%s(parsed=): %r' % (name, bytes(p))
        p.set(b'\x05\x00')
        if p.parsed.native is not None or p.native is not None or bytes(p) != b'\x05\x00':
            return '%s(parsed=) after set: %r' % (name, p.parsed.native)


def chk_integer(v, width, late=False):
    for o in (core.IntegerOctetString(), core.IntegerOctetString.load(b'\x24\x80\x04\x01\x07\0\0'),
              core.IntegerOctetString.load(b'\x04\x03\x00\x00\x07'), core.IntegerOctetString(5).copy()):
        o.native
        fits = v >= 0 and (width is None or v < 1 << (8 * width))
        try:
            if width is not None and not late:
                o.set_encoded_width(width)
            o.set(v)
            if width is not None and late:
                o.set_encoded_width(width)
        except (ValueError, OverflowError):
            if fits:
                return 'IntegerOctetString refuses %d at width %r' % (v, width)
            continue
        if not fits:
            return 'IntegerOctetString accepts %d at width %r' % (v, width)
        n = width if width is not None else max(1, (v.bit_length() + 7) // 8)
        want = bytes((v >> 8 * (n - 1 - i)) & 255 for i in range(n))
        d = x690.emit(0, 0, 4, want)
        if o.contents != want or o.native != v or o.dump() != d or o.dump(force=True) != d or o.copy().dump() != d:
            return 'IntegerOctetString %d at width %r: %s' % (v, width, o.dump().hex())
        if o.copy().dump(force=True) != d:
            return 'IntegerOctetString %d at width %r: the copy encodes as %s' % (v, width, o.copy().dump(force=True).hex())
        if core.IntegerOctetString.load(d).native != v:
            return 'IntegerOctetString: %s decodes to %d' % (d.hex(), core.IntegerOctetString.load(d).native)


ALPHABETS = ['0123456789 ', 'abcXYZ 0\'()+,-./:=?', ''.join(map(chr, range(128))), ''.join(map(chr, range(256))),
             ''.join(T61_BACK), ''.join(map(chr, [0x80, 0x7ff, 0x800, 0xffff, 0xfffe, 0xfeff, 0xd7ff, 0xe000, 0x20ac, 0x4e2d])),
             ''.join(map(chr, [0x10000, 0x1f600, 0x10ffff])), '\ud800\udfff']


def rtext(rng):
    n = rng.choice([0, 1, 2, 3, 5, 9, 63, 64, 65, 127, 128, 130])
    if rng.random() < .6:
        n = rng.randrange(6)
    al = rng.choice(ALPHABETS[:7])
    t = ''.join(rng.choice(al) for _ in range(n))
    if rng.random() < .15 and n:
        i = rng.randrange(n)
        t = t[:i] + rng.choice(rng.choice(ALPHABETS)) + t[i + 1:]
    return t


class TextCases(Bounded):
    name = 'character strings of every type'
    rule = 'every single character up to U+FFFF boundary samples, boundary and random texts per type; distinct by (type, text)'
    seconds = 14

    def cases(self, rng, tier):
        names = sorted(TYPES)
        for nm in names:
            yield nm, ''
            for t in ('a', 'A1', '\u00e9', '\u2126', '\U0001f600', '\ud800', 'x' * 127, 'x' * 128, 'x' * 256, '\u20ac' * 50):
                yield nm, t
        for cp in list(range(0, 0x180)) + list(range(0x300, 0x334)) + [0x2126, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000,
                                                                      0xfeff, 0xfffe, 0xffff, 0x10000, 0x10ffff]:
            for nm in names:
                yield nm, chr(cp)
        while True:
            t = rtext(rng)
            for nm in names:
                yield nm, t

    def oracle(self, case):
        return chk_text(*case)


class OctetCases(Bounded):
    name = 'octet strings of every type'
    rule = 'boundary lengths, random bytes, boundary and random integers and widths; distinct by input'
    seconds = 8

    def cases(self, rng, tier):
        for n in gen.LENGTHS[:11]:
            yield 'oct', bytes(n)
        for v in gen.BOUNDARY_INTS:
            yield 'parsed', v
            for w in (None, 1, 2, 8, 32, 66):
                yield 'int', (v, w, False)
        for v in range(-2, 300):
            yield 'int', (v, None, False)
            yield 'int', (v, 1, True)
        while True:
            yield 'oct', gen.rbytes(rng, rng.choice([rng.randrange(12), rng.randrange(300)]))
            yield 'parsed', gen.rint(rng)
            yield 'int', (gen.rint(rng), rng.choice([None, rng.randrange(1, 80)]), rng.random() < .5)

    def oracle(self, case):
        k, v = case
        return chk_octets(v) if k == 'oct' else chk_parsed(v) if k == 'parsed' else chk_integer(*v)


class Teletex(Bounded):
    name = 'the T.61 table'
    rule = 'all 256 octets, all characters up to U+FFFF: complete enumeration'
    exhaustive = True

    def cases(self, rng, tier):
        for i in range(256):
            yield 'byte', i
        for i in range(0, 0x10000, 256):
            yield 'chars', i

    def oracle(self, case):
        k, v = case
        if k == 'byte':
            try:
                t = core.TeletexString.load(bytes([20, 1, v])).native
            except ValueError:
                t = None
            return None if t == T61.get(v) else 'T.61 octet %02x decodes to %r' % (v, t)
        for cp in range(v, v + 256):
            try:
                b = core.TeletexString(chr(cp)).contents
            except ValueError:
                b = None
            if b != enc_t61(chr(cp)):
                return 'T.61: U+%04X encodes as %r' % (cp, b)
        for b in (b'', b'ab'):
            o = x509.NotReallyTeletexString.load(x690.emit(0, 0, 20, bytes([v % 128]) + b))
            if o.native != (bytes([v % 128]) + b).decode('cp1252', 'replace'):
                return 'lenient teletex: %r' % o.native
            with x509.strict_teletex():
                o = x509.NotReallyTeletexString.load(x690.emit(0, 0, 20, b'\xa4\xe0'))
                if o.native != '$\u2126':
                    return 'strict teletex: %r' % o.native


class WrongTypes(Bounded):
    name = 'strings refuse values of the wrong Python type'
    rule = 'fixed list of values for every string class'
    exhaustive = True
    VALUES = [5, 1.5, [1], {'a': 1}, (1, 2), object(), True, bytearray(b'x'), set()]

    def cases(self, rng, tier):
        for nm in list(TYPES) + ['OctetString', 'ParsableOctetString', 'ParsableOctetBitString', 'VideotexString',
                                 'IntegerOctetString']:
            for i in range(len(self.VALUES) + 2):
                yield nm, i

    def oracle(self, case):
        nm, i = case
        v = (self.VALUES + ['text', b'bytes'])[i]
        cls = getattr(core, nm)
        if nm in TYPES and isinstance(v, str) or nm == 'IntegerOctetString' and isinstance(v, int) or \
                nm not in TYPES and nm != 'IntegerOctetString' and isinstance(v, bytes):
            return
        for o in (cls(), cls.load(x690.emit(0, 0, cls.tag, {'UniversalString': b'\0\0\0A', 'BMPString': b'\0A',
                                                           'ParsableOctetBitString': b'\0A'}.get(nm, b'A')))):
            before = o.contents, o.native
            try:
                o.set(v)
            except TypeError:
                if (o.contents, o.native) != before:
                    return '%s: refused %r changed the value' % (nm, v)
                continue
            return '%s accepts %r' % (nm, v)


UNITS = [TextSet(n) for n in sorted(TYPES)] + [OctetSet('OctetString'), OctetSet('ParsableOctetString'), IntegerOctets]
BOUNDED = [TextCases, OctetCases, Teletex, WrongTypes]
