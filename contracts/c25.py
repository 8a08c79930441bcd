"""C25: malformed input fails decoding only with ValueError or TypeError."""
import json, os
from .common import *  # noqa
from pyvc.values import atoms_of, Unsupported
import z3
from oracle import der, fixtures, libgen, x690

OK = (ValueError,)


def attempt(f):
    try:
        return 'ret', f()
    except OK as e:
        return 'refused', e
    except Exception as e:
        return 'escaped', e


class Reader(object):
    """reads everything of a value; the first thing that escapes is kept"""

    def __init__(self, budget=400):
        self.bad = None
        self.left = budget

    def get(self, what, f):
        r, x = attempt(f)
        if r == 'escaped' and self.bad is None:
            self.bad = '%s raises %s: %s' % (what, type(x).__name__, str(x)[:100])
        return (r, x)

    def value(self, o):
        todo = [(o, '')]
        while todo and self.left > 0 and not self.bad:
            self.left -= 1
            self.one(todo, *todo.pop())

    def one(self, todo, o, path):
        if o is None or not isinstance(o, core.Asn1Value):
            return
        p = path or type(o).__name__
        if len(p) > 60:
            p = p[:20] + '...' + p[-30:]
        for n, f in (('native', lambda: o.native), ('dump', lambda: o.dump()), ('contents', lambda: o.contents)):
            self.get('%s.%s' % (p, n), f)

        def part(n, f):
            r, x = self.get(p + n, f)
            if r == 'ret':
                todo.append((x, p + n))
        if isinstance(o, core.Choice):
            self.get(p + '.name', lambda: o.name)
            part('.chosen', lambda: o.chosen)
        elif isinstance(o, (core.Any, core.ParsableOctetString, core.ParsableOctetBitString)):
            part('.parsed', lambda: o.parsed)
            if not isinstance(o, core.Any):
                self.get('bytes(%s)' % p, lambda: bytes(o))
        elif isinstance(o, (core.Sequence, core.SequenceOf)):
            names = [f[0] for f in o._fields] if isinstance(o, core.Sequence) else []
            r, n = self.get('len(%s)' % p, lambda: len(o))
            for n in names or (range(n) if r == 'ret' else ()):
                part('[%r]' % n, lambda: o[n])
            self.get('list(%s)' % p, lambda: list(o))
        elif isinstance(o, core.AbstractString):
            self.get('str(%s)' % p, lambda: str(o))
        elif isinstance(o, core.ObjectIdentifier):
            self.get(p + '.dotted', lambda: o.dotted)
        elif isinstance(o, core.Integer):
            self.get('int(%s)' % p, lambda: int(o))
        if not path:
            for n, f in (('dump(force=True)', lambda: o.dump(force=True)), ('copy()', lambda: o.copy()), ('native', lambda: o.native),
                         ('== itself', lambda: o == o)):
                self.get('%s.%s' % (p, n), f)


# values whose loads and natives nothing else may disturb
def watch():
    out = []
    for rel, c in (('keys/test-der.crt', 'x509.Certificate'), ('cms-signed.der', 'cms.ContentInfo'), ('ocsp_response', 'ocsp.OCSPResponse'), ('test-tripledes.p12', 'pkcs12.Pfx')):
        b = fixtures.get(rel)
        out.append((fixtures.cls(c), b))
    return out


WATCH = []


def disturbed():
    if not WATCH:
        for k, b in watch():
            WATCH.append((k, b, repr(fixtures.look(k.load(b))), k.load(b)))
    for k, b, n, o in WATCH:
        if repr(fixtures.look(k.load(b))) != n or repr(fixtures.look(o)) != n:
            return 'values of %s read differently after a failed load' % k.__name__


def chk(cls, data, strict=False):
    r, o = attempt(lambda: cls.load(data, strict=strict) if cls is not core.Asn1Value else core.Asn1Value.load(data, strict=strict))
    if r == 'escaped':
        return '%s.load(%s) raises %s: %s' % (cls.__name__, data.hex()[:400], type(o).__name__, str(o)[:100])
    if r == 'ret':
        rd = Reader()
        rd.value(o)
        if rd.bad:
            return '%s of %s' % (rd.bad, data.hex()[:400])


CLASSES = [k for k in libgen.classes() if not issubclass(k, core.Void) and k is not core.Choice and k not in (core.Primitive, core.Constructable)]


class Declared(Bounded):
    name = 'encodings of every class, and changes of them: loading and reading raise only ValueError or TypeError'
    rule = 'random values of the declarations of every class, changed in bytes or structure; distinct: class and bytes'
    seconds = 40

    def cases(self, rng, tier):
        from . import structs
        g = libgen.Gen(rng, 5)
        while True:
            for k in CLASSES:
                b = g.value(k)
                if len(b) > 4000:
                    continue
                yield k, b
                yield k, gen.mutate(rng, b)
                try:
                    yield k, structs.mutate_tree(rng, b)
                except Exception:
                    pass
                yield k, g.value(rng.choice(CLASSES))

    def oracle(self, case):
        return chk(*case)


class Files(Bounded):
    name = 'changed files: loading and reading raise only ValueError or TypeError, and disturb no other value'
    rule = 'the fixtures with random changes of bytes or structure; distinct: class and bytes'
    seconds = 40

    def cases(self, rng, tier):
        from . import structs
        fs = [(fixtures.cls(c), b) for _, c, b in fixtures.every() if len(b) < 3000]
        while True:
            for k, b in fs:
                yield k, gen.mutate(rng, b)
                yield k, structs.mutate_tree(rng, b)

    n = 0

    def oracle(self, case):
        m = chk(*case)
        if m:
            return m
        self.n += 1
        if self.n % 40 == 0:
            return disturbed()


class Short(Bounded):
    name = 'short contents in every primitive class'
    rule = 'every contents of up to 1 octet (2 octets at random) for every class, and BER chunks; distinct: class and bytes'
    seconds = 30

    def cases(self, rng, tier):
        for k in CLASSES:
            for m in (0, 1):
                t = k.tag if k.tag is not None else libgen.ident(k)
                if t is None:
                    t = 4
                for c in [b''] + [bytes([x]) for x in range(256)]:
                    yield k, x690.emit(k.class_ or 0, m, t, c)
        while True:
            for k in CLASSES:
                t = k.tag if k.tag is not None else 4
                c = gen.rbytes(rng)
                yield k, x690.emit(k.class_ or 0, rng.randrange(2), t, c)
                yield k, bytes([(k.class_ or 0) << 6 | 0x20 | min(t, 30), 0x80]) + b''.join(
                    x690.emit(rng.choice([0, 0, 2]), 0, rng.choice([t, 4, 0]), gen.rbytes(rng, hi=3)) for _ in range(rng.randrange(3))) + b'\0\0'
                yield k, gen.rbytes(rng)

    def oracle(self, case):
        return chk(*case)


class WrongType(Bounded):
    name = 'loading what is no byte string raises TypeError'
    rule = 'six values of other types for every class; distinct: class and value'
    seconds = 5
    exhaustive = True

    def cases(self, rng, tier):
        for k in CLASSES:
            for v in (None, 5, 'text', ['a'], 1.5, {}):
                for strict in (False, True):
                    yield k, v, strict

    def oracle(self, case):
        k, v, strict = case
        try:
            k.load(v, strict=strict)
        except TypeError:
            return None
        except Exception as e:
            return '%s.load(%r) raises %s' % (k.__name__, v, type(e).__name__)
        return '%s.load(%r) is accepted' % (k.__name__, v)


def nests(rng, n):
    w = [(0, 16), (0, 17), (2, 0), (2, 1), (1, 3)]
    for how in range(len(w) + 3):
        b = rng.choice([b'', b'\x05\x00', b'\x02\x01\x05', b'\x04\x80'])
        for i in range(n):
            c, t = w[how] if how < len(w) else rng.choice(w)
            if how == len(w) + 1:
                b = x690.emit(0, 0, 4, b)
            elif how == len(w) + 2:
                b = x690.emit(0, 1, 16, b'\x06\x01\x2a' + b)
            else:
                b = x690.emit(c, 1, t, b)
        yield b


class Deep(Bounded):
    name = 'values nested very deeply'
    rule = 'sequences, sets, tagged values and octet strings nested 9 to 3000 deep under every class; distinct: class and bytes'
    seconds = 40

    def cases(self, rng, tier):
        for n in (9, 60, 150, 300, 1000, 3000):
            bs = list(nests(rng, n))
            for k in [core.Sequence, core.SequenceOf, core.Any, core.Asn1Value, core.Set, core.SetOf, core.ParsableOctetString]:
                for b in bs:
                    yield k, b
            for k in rng.sample(CLASSES, 40):
                t = k.tag if k.tag is not None else 16
                for b in bs:
                    yield k, x690.emit(k.class_ or 0, 1, t, b)

    def oracle(self, case):
        import sys
        was = sys.getrecursionlimit()
        sys.setrecursionlimit(1000)         # as the interpreter comes
        try:
            return chk(*case)
        finally:
            sys.setrecursionlimit(was)


# ---------------------------------------------------------------------------------------------- contracts
class Octets(Unit):
    """a value of a primitive class with any contents, as _build leaves it: reading it raises only ValueError"""

    def __init__(self, k):
        self.cls = k
        self.name = '%s of any contents: native, encodings and text raise only ValueError' % k.__name__
        self.targets = tuple('%s.%s.%s' % (b.__module__, b.__name__, n) for n in ('native', '__unicode__', '__int__', 'dump', 'set', 'contents') for b in k.__mro__
                             if n in vars(b))[:6]
        self.covers = ()

    def run(self, it):
        c = it.ctx
        v = c.in_bytes('contents', 0)
        o = self.cls()
        it.setattr(o, 'contents', v)
        it.contracts = dict(oids(it), **{'asn1crypto.parser._dump_header': lambda *a: c.fresh_bytes('header', 2)})
        for what, f in (('native', lambda: getp(it, o, 'native')), ('dump', lambda: meth(it, o, 'dump')),
                        ('native again', lambda: getp(it, o, 'native')), ('forced dump', lambda: meth(it, o, 'dump', force=True))):
            k, r = f()
            if not c.prove('%s is answered or refused with ValueError' % what, k == 'ret' or issubclass(r.__class__ if not isinstance(r, type) else r, ValueError)):
                return

    def gen(self, rng):
        return {'contents': gen.rbytes(rng)}

    def oracle(self, d):
        o = self.cls(contents=d['contents'])
        for n, f in (('native', lambda: o.native), ('dump', o.dump), ('native again', lambda: o.native), ('forced dump', lambda: o.dump(force=True))):
            try:
                f()
            except ValueError:
                pass
            except Exception as e:
                return '%s of %s with contents %s raises %r' % (n, self.cls.__name__, d['contents'].hex(), e)


class Ghost(object):
    """some Python value that only its identity matters of"""

    def __init__(self, what):
        self.what = what


def text(it):
    from pyvc.values import SStr, OpaqueText
    return SStr([OpaqueText('text read', None, None)])


def oids(it):
    """contract of the reading and setting of identifiers"""
    c = it.ctx
    known = {}

    def dotted(it_, f, args, kwargs):
        o = args[0]
        if id(o) not in known:
            known[id(o)] = o, None if c.choose(2) else text(it)
        t = known[id(o)][1]
        if t is None:
            raise PyRaise(ValueError('malformed identifier'))
        return t

    def setter(it_, f, args, kwargs):
        o = args[0]
        if not c.choose(2):
            raise PyRaise(ValueError('no identifier'))
        o.contents = c.fresh_bytes('identifier', 1)
        o._header = None
        return None
    return {'asn1crypto.core.ObjectIdentifier.dotted': dotted, 'asn1crypto.core.ObjectIdentifier.set': setter}


def refused_or(k, r):
    return k == 'ret' or isinstance(r, ValueError)


METHODS = sorted(set((b.__module__, b.__name__, n) for k in CLASSES for b in k.__mro__ for n in (
    'native', 'dump', '_parse_children', 'chosen', 'name', 'parsed', 'dotted', '__unicode__', '__int__', '__bytes__', '__getitem__') if n in vars(b) and b.__module__.startswith('asn1crypto')))


class Parts(object):
    """induction hypothesis for the values inside a value: building one, its native value, its encoding and what is inside it are
    answered, or refused with ValueError; the same octets are read the same way every time"""

    def __init__(self, it, own):
        from .symstruct import repr_atom
        self.it, self.c, self.own, self.repr_atom = it, it.ctx, own, repr_atom
        self.stubs, self.known = {}, {}
        it.contracts = dict(it.contracts, **{'asn1crypto.core._build': self.build})
        for m, k, n in METHODS:
            it.contracts['%s.%s.%s' % (m, k, n)] = lambda it_, f, a, kw, n=n: self.call(n, a)

    def again(self, o, what, draw, i=None):
        """what is drawn for the octets of o, the same each time"""
        k, v = self.stubs[id(o) if i is None else i][1:3]
        key = (k, what) + tuple(repr(self.repr_atom(x)) for x in atoms_of(v))
        if key not in self.known:
            self.known[key] = draw()
        return self.known[key]

    def build(self, it, f, args, kwargs):
        a = names_bound(f, args, kwargs)
        if a is None:
            return MISSING
        k = a['spec']
        if k is self.own and not self.stubs:
            return MISSING
        v = a['contents']
        if k is None:
            # the class of its tag
            self.stubs[0] = (None, None, v)
            k = (core.OctetString, core.Sequence)[self.again(None, 'class', lambda: self.c.choose(2), 0)]
        o = self.stub(k, v, class_=a['class_'], method=a['method'], tag=a['tag'], _header=a['header'], _trailer=a['trailer'])
        if not self.again(o, 'builds', lambda: self.c.choose(2)):
            raise PyRaise(ValueError('no value of its class'))
        return o

    def stub(self, k, v, **kw):
        o = k.__new__(k)
        o.__dict__.update(kw, _contents=v, contents=v, children=None, _native=None, _parsed=None)
        self.stubs[id(o)] = (o, k, v)
        return o

    def names(self, k):
        m = getattr(k, '_map', None)
        if isinstance(m, dict) and issubclass(k, (core.ObjectIdentifier, core.Integer)):
            return sorted(set(m.values()))
        return []

    def call(self, n, a):
        o = a[0]
        if id(o) not in self.stubs:
            return MISSING
        k = self.stubs[id(o)][1]

        def draw():
            c = self.c
            if not c.choose(2):
                return None
            if n == '__getitem__' and issubclass(k, core.Sequence) and k._fields and isinstance(a[1], str):
                f = [x for x in k._fields if x[0] == a[1]]
                if not f:
                    raise Unsupported('no field %r of %r' % (a[1], k))
                p = f[0][2] if len(f[0]) > 2 else {}
                if 'optional' in p and not c.choose(2):
                    return (core.VOID,)
                return (self.stub(f[0][1], c.fresh_bytes('field', 0)),)
            if n == 'dump':
                return (c.fresh_bytes('encoding', 2),)
            if n == '_parse_children':
                return (None,)
            if n == 'dotted':
                return (Ghost('dotted'),)
            if n == 'native':
                ns = self.names(k)
                if ns:
                    j = c.choose(len(ns) + 1)
                    return (ns[j] if j < len(ns) else Ghost('name'),)
                if k is core.Boolean:
                    return (bool(c.choose(2)),)
                return (Ghost('native value'),)
            raise Unsupported('%s of a part' % n)
        r = self.again(o, (n,) + tuple(x for x in a[1:] if isinstance(x, str)), draw)
        if r is None:
            raise PyRaise(ValueError('malformed'))
        return r[0]


class Level(Unit):
    """any bytes as a value of a class of the library: loading, fields, native value and encodings"""
    unroll = 60
    time_s = 240
    assumptions = ('contract of parser._parse (C02)',
                   'by induction over the nesting: building and reading the values inside is answered or refused with ValueError')

    def __init__(self, k):
        self.cls = k
        self.name = '%s.%s from any bytes: reading raises only ValueError' % (k.__module__[11:], k.__name__)
        self.targets = ('asn1crypto.core._parse_build', 'asn1crypto.core._build', 'asn1crypto.core.%s._parse_children' % (
            'SequenceOf' if issubclass(k, core.SequenceOf) else 'Sequence'), 'asn1crypto.core.%s.native' % (
            'SequenceOf' if issubclass(k, core.SequenceOf) else 'Sequence'))
        self.covers = ('read', 'refused')
        if issubclass(k, core.SequenceOf) or not k._fields:
            self.bounded_note = 'up to 2 elements'

    def run(self, it):
        from .symstruct import Wire
        c = it.ctx
        w = Wire(it)
        if self.__dict__.get('bounded_note'):
            fresh = w.fresh

            def limited(data, start):
                b = w.lookup(data)
                if b is not None and len(b[1]) >= 2:
                    c.assume(z3.BoolVal(False))
                return fresh(data, start)
            w.fresh = limited
        Parts(it, self.cls)
        data = c.in_bytes('data', 1)
        k, o = outcome(it, self.cls.load, data)
        if not c.prove('loading is answered or refused with ValueError', refused_or(k, o)) or k != 'ret':
            c.cover('refused')
            return
        order = c.choose(2)
        if order:
            if issubclass(self.cls, core.SequenceOf):
                k, n = meth(it, o, '__len__')
                if c.prove('the length is answered or refused with ValueError', refused_or(k, n)) and k == 'ret':
                    for i in range(n):
                        k, r = getk(it, o, i)
                        c.prove('elements are answered or refused with ValueError', refused_or(k, r))
            else:
                for f in self.cls._fields:
                    k, r = getk(it, o, f[0])
                    if not c.prove('fields are answered or refused with ValueError', refused_or(k, r)) or k != 'ret':
                        break
        k, r = getp(it, o, 'native')
        c.cover('read' if k == 'ret' else 'refused')
        if not c.prove('native is answered or refused with ValueError', refused_or(k, r)):
            return
        k2, r = getp(it, o, 'native')
        c.prove('native again is answered or refused as before', refused_or(k2, r) and k2 == k)
        k, r = meth(it, o, 'dump')
        c.prove('dump is answered or refused with ValueError', refused_or(k, r))

    def oracle(self, d):
        return chk(self.cls, d['data'])


# times and bit strings of a symbolic number of unused bits are only run (bounded)
PRIMITIVE = [k for k in CLASSES if k.__module__ == 'asn1crypto.core' and not issubclass(k, (core.Sequence, core.SequenceOf, core.Choice, core.Any, core.AbstractTime))
             and k not in (core.Asn1Value, core.OctetBitString)]
COMPOUND = [k for k in CLASSES if issubclass(k, (core.Sequence, core.SequenceOf)) and k.tag is not None]


def level(k):
    u = Level(k)
    # measured cost in seconds; those of more than QUICK are left to the thorough tier
    u.thorough_only = COST.get('%s.%s' % (k.__module__[11:], k.__name__), 999) > QUICK
    return u


QUICK = 20
COST = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c25_cost.json')))
LEVEL = 'other'
UNITS = [Octets(k) for k in PRIMITIVE] + [level(k) for k in COMPOUND]
BOUNDED = [Declared, Files, Short, WrongType, Deep]
