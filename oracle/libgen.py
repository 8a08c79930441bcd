"""Encodings of values of the library's own classes, drawn from the declarations of the classes (only an input generator:
nothing is judged against it)."""
import importlib
import inspect
from . import x690

MODULES = ('core', 'algos', 'keys', 'x509', 'crl', 'ocsp', 'cms', 'csr', 'pdf', 'pkcs12', 'tsp')


def classes():
    """every value class of the library, by module and name"""
    from asn1crypto import core
    out, seen = [], set()
    for m in MODULES:
        mod = importlib.import_module('asn1crypto.' + m)
        for n, k in sorted(vars(mod).items()):
            if inspect.isclass(k) and issubclass(k, core.Asn1Value) and k not in seen:
                seen.add(k)
                out.append(k)
    return out


def oid(text):
    parts = [int(x) for x in text.split('.')]
    out = b''
    for n in [parts[0] * 40 + parts[1]] + parts[2:]:
        s = [n & 127]
        n >>= 7
        while n:
            s.append(n & 127 | 128)
            n >>= 7
        out += bytes(reversed(s))
    return out


def ident(k):
    """(method, tag) of the universal type, or None"""
    for b in k.__mro__:
        if b.__dict__.get('tag') is not None and b.class_ == 0:
            return b.tag
    return k.tag


def text(rng):
    return rng.choice(['', 'a', 'Ab', '1.2', 'x@y.com', 'http://a.b/c', '200101000000Z', '20200101000000Z', '20200101000000.5Z', '\xe9', '\u20ac',
                       '00000101000000Z', '491231235959+0100', 'example.com', '.a', ' a  b ', 'xn--bcher-kva.de', '*.a', '://', 'http://[', '%', 'a' * 70])


class Gen(object):
    def __init__(self, rng, limit=6):
        from asn1crypto import core
        self.rng, self.core, self.limit = rng, core, limit

    def value(self, k, depth=0, params=None):
        """an encoding of class k under field parameters"""
        params = params or {}
        if k is None:
            return x690.emit(0, 1, 17, self.some(depth)) if self.rng.random() < .7 else self.some(depth)
        rng, core = self.rng, self.core
        kw = {x: params[x] for x in ('explicit', 'implicit', 'class_', 'tag_type', 'tag') if x in params}
        if issubclass(k, core.Choice):
            alts = k._alternatives
            if not alts:
                return b'\x05\x00'
            a = rng.choice(alts)
            body = self.value(a[1], depth + 1, a[2] if len(a) > 2 else None)
        elif issubclass(k, core.Any) or k is core.Asn1Value:
            body = rng.choice([b'\x05\x00', b'\x02\x01\x07', b'\x30\x00', b'\x04\x01a', b'\x0c\x01b', self.some(depth)])
        elif issubclass(k, core.Void):
            return b''
        else:
            tag, con, c = ident(k), 0, b''
            if issubclass(k, (core.Sequence, core.Set)) and not issubclass(k, core.SequenceOf):
                con, c = 1, self.fields(k, depth)
            elif issubclass(k, (core.SequenceOf, core.SetOf)):
                con = 1
                if depth < self.limit and k._child_spec:
                    c = b''.join(self.value(k._child_spec, depth + 1) for _ in range(rng.choice([0, 1, 1, 2])))
            else:
                c = self.primitive(k, depth)
            cls = k.class_ or 0
            if cls and k.tag is not None:
                tag = k.tag
            if tag is None:
                tag = 4
            if 'implicit' in kw:
                cls, tag = self.form(kw['implicit'])
            elif kw.get('tag_type') == 'implicit':
                cls, tag = 2, kw['tag']
            body = x690.emit(cls, con, tag, c)
        for ec, et in getattr(k, 'explicit', None) or ():
            body = x690.emit(ec, 1, et, body)
        ex = kw.get('explicit', kw.get('tag') if kw.get('tag_type') == 'explicit' else None)
        if ex is not None:
            ec, et = self.form(ex)
            body = x690.emit(ec, 1, et, body)
        return body

    def form(self, x):
        if isinstance(x, int):
            return 2, x
        if isinstance(x[0], tuple):
            x = x[0]
        a, b = x
        return ({'universal': 0, 'application': 1, 'context': 2, 'private': 3}.get(a, a), b)

    def some(self, depth):
        if depth > self.limit:
            return b'\x05\x00'
        if not hasattr(self, 'all'):
            self.all = classes()
        return self.value(self.rng.choice(self.all), depth + 2)

    def fields(self, k, depth):
        rng, core = self.rng, self.core
        out = b''
        chosen = None
        pair = k._oid_pair
        for f in k._fields:
            p = f[2] if len(f) > 2 else {}
            if ('optional' in p or 'default' in p) and rng.random() < (.5 if depth < self.limit else .95):
                continue
            spec = f[1]
            if pair and f[0] == pair[0] and k._oid_specs and rng.random() < .85:
                chosen = rng.choice(list(k._oid_specs))
                dotted = None
                for b in spec.__mro__:
                    m = b.__dict__.get('_map') or {}
                    dotted = next((d for d, n in m.items() if n == chosen and isinstance(d, str)), dotted)
                if dotted is None and str(chosen)[:1].isdigit():
                    dotted = chosen
                if dotted is not None and '.' in dotted:
                    p2 = {x: p[x] for x in ('explicit', 'implicit') if x in p}
                    if not p2:
                        out += x690.emit(0, 0, 6, oid(dotted))
                        continue
                chosen = None
            if pair and f[0] == pair[1] and chosen is not None:
                inner = k._oid_specs[chosen]
                if issubclass(spec, (core.ParsableOctetString, core.ParsableOctetBitString)):
                    c = self.value(inner, depth + 1)
                    if issubclass(spec, core.ParsableOctetBitString):
                        c = b'\0' + c
                    tag = ident(spec)
                    cls = 0
                    if 'implicit' in p:
                        cls, tag = self.form(p['implicit'])
                    b = x690.emit(cls, 0, tag, c)
                    if 'explicit' in p:
                        b = x690.emit(*self.form(p['explicit'])[:1] + (1, self.form(p['explicit'])[1], b))
                    out += b
                else:
                    out += self.value(inner, depth + 1, p)
                continue
            if depth > self.limit + 3:
                out += b'\x05\x00'
                continue
            out += self.value(spec, depth + 1, p)
        return out

    def primitive(self, k, depth):
        rng, core = self.rng, self.core
        octets = lambda n: bytes(rng.getrandbits(8) for _ in range(n))
        if issubclass(k, core.ObjectIdentifier):
            m = {}
            for b in k.__mro__:
                m.update(b.__dict__.get('_map') or {})
            ds = [d for d in m if isinstance(d, str) and '.' in d]
            if ds and rng.random() < .85:
                return oid(rng.choice(sorted(ds)))
            return rng.choice([b'\x2a\x03', b'\x55\x1d\x11', b'\x88\x37\x01'])
        if issubclass(k, (core.Integer, core.Enumerated)):
            m = k._map if isinstance(k._map, dict) else {}
            if m and rng.random() < .7:
                return bytes([rng.choice(sorted(m)) & 255])
            return rng.choice([b'\x00', b'\x01', b'\x05', b'\xff', b'\x7f', b'\x01\x00', octets(rng.randrange(1, 9))])
        if issubclass(k, core.Boolean):
            return rng.choice([b'\0', b'\xff'])
        if issubclass(k, core.Null):
            return b''
        if issubclass(k, (core.BitString, core.OctetBitString, core.IntegerBitString, core.ParsableOctetBitString)):
            if issubclass(k, core.ParsableOctetBitString) and rng.random() < .7:
                return b'\0' + self.some(depth)
            return rng.choice([b'\0', b'\x07\x80', b'\x00\xff\x01', b'\x03\xa8', b'\0' + octets(rng.randrange(8))])
        if issubclass(k, core.ParsableOctetString) and rng.random() < .8:
            return self.some(depth)
        if issubclass(k, core.OctetString):
            return rng.choice([b'', octets(4), octets(8), octets(16), octets(32), octets(rng.randrange(20)), b'\x04ab', self.some(depth)])
        if issubclass(k, core.UTCTime):
            return rng.choice([b'200101000000Z', b'491231235959Z', b'500101000000Z', b'2001010000Z', b'200101000000+0130'])
        if issubclass(k, core.GeneralizedTime):
            return rng.choice([b'20200101000000Z', b'20200101000000.25Z', b'00000229120000Z', b'2020010100Z', b'20200101000000-0500'])
        t = text(rng)
        enc = getattr(k, '_encoding', 'latin1')
        try:
            return t.encode({'idna': 'latin1'}.get(enc, enc))
        except (UnicodeError, LookupError):
            return b'abcd'
