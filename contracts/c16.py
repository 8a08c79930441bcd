"""C16: copies are equal and independent."""
from .common import *  # noqa
from . import structs
from .structs import attempt
from .symhist import *  # noqa
from oracle import schema, x690, fixtures
import random as _random
import copy as _copy
import pickle
import re

ATTRS = ('class_', 'method', 'tag', 'implicit', 'explicit')


def pairs(S, a, b, path=''):
    yield S, path, a, b
    if S[0] in ('seq', 'set'):
        for n, f, q in S[2]:
            x, y = a[n], b[n]
            if x is core.VOID or y is core.VOID:
                if (x is core.VOID) != (y is core.VOID):
                    yield None, path + '.' + n, x, y
                continue
            for z in pairs(f, x, y, path + '.' + n):
                yield z
    elif S[0] == 'seqof':
        for i, (x, y) in enumerate(zip(a, b)):
            for z in pairs(S[2], x, y, '%s[%d]' % (path, i)):
                yield z
    elif S[0] == 'choice' and a.name == b.name:
        for z in pairs(dict(S[2])[a.name], a.chosen, b.chosen, path + '.' + a.name):
            yield z


def chk_copy(case):
    S, v, data, how, reads, seed = case
    rng = _random.Random(seed)
    o = schema.build(S, v) if data is None else schema.load(S, data)
    for r in reads:
        if r == 'native':
            o.native
        elif r == 'walk':
            schema.walk(S, o)
        elif r == 'dump':
            o.dump()
        elif r == 'some' and S[0] in ('seq', 'set'):
            o[rng.choice(S[2])[0]]
        elif r == 'some' and S[0] in ('seqof', 'setof') and len(o):
            o[rng.randrange(len(o))]
    before = o.dump()
    r, c = attempt({'copy': o.copy, 'deepcopy': lambda: _copy.deepcopy(o), 'copy.copy': lambda: _copy.copy(o),
                    'in a list': lambda: _copy.deepcopy([o, o])[1]}[how])
    if r != 'ret':
        return '%s of %s fails: %s' % (how, before.hex(), c)
    if o.dump() != before:
        return '%s changes the original' % how
    if c.__class__ is not o.__class__:
        return '%s is of another class' % how
    d = c.dump()
    if d != before and not schema.same(S, schema.dec(S, d), v):
        return '%s of %s encodes as %s' % (how, before.hex(), d.hex())
    if schema.plain(c.native) != schema.plain(o.native) and not structs.contains(S, ('setof',)):
        return '%s of %s has the native value %r' % (how, before.hex(), c.native)
    for T, path, a, b in pairs(S, o, c):
        if a is b and T is not None and how != 'copy.copy':
            return '%s of %s shares %s' % (how, before.hex(), path or 'the value')
        if a.__class__ is not b.__class__ and (T is None or T[0] != 'any'):
            return '%s of %s: %s is a %s and not a %s' % (how, before.hex(), path, type(b).__name__, type(a).__name__)
        if T[0] in ('choice', 'any'):
            continue
        for n in ATTRS:
            if getattr(a, n) != getattr(b, n) and not (n == 'method' and T[0] in schema.STRINGS):
                return '%s of %s: %s has %s %r and not %r' % (how, before.hex(), path, n, getattr(b, n), getattr(a, n))
    w = schema.walk(S, c)
    if not schema.same(S, w, v):
        return '%s of %s reads as %r' % (how, before.hex(), w)
    # a copy of the copy, and the copy forced, leave the original alone
    if c.dump(force=True) != schema.enc(S, v):
        return '%s of %s encodes as %s when forced' % (how, before.hex(), c.dump(force=True).hex())
    if how != 'copy.copy' and o.dump() != before:
        return 'forcing %s of %s changes the original' % (how, before.hex())


class Equal(Bounded):
    name = 'copies of random values'
    rule = 'random declarations and values, built or loaded, with some fields read before copying; distinct by value and reads'
    seconds = 25

    def cases(self, rng, tier):
        while True:
            g, S = structs.decl(rng)
            v = g.value(S)
            for data in (None, schema.enc(S, v), schema.enc(S, v, schema.Ber(rng))):
                yield (S, v, data, rng.choice(['copy', 'copy', 'deepcopy', 'copy.copy', 'in a list']),
                       tuple(rng.sample(['native', 'walk', 'dump', 'some', 'some'], rng.randrange(4))), rng.getrandbits(30))

    def oracle(self, case):
        return chk_copy(case)


class Histories(structs.Histories):
    name = 'changes to originals and copies'
    steps = 12
    seconds = 25

    def cases(self, rng, tier):
        for c in structs.Histories.cases(self, rng, tier):
            if any(s[0] in ('copy', 'deepcopy') for s in c[3]):
                yield c


def chk_fixture(case):
    rel, cname, reads = case
    data = [b for r, c, b in fixtures.every() if (r, c) == (rel, cname)][0]
    o = fixtures.cls(cname).load(data)
    if reads == 'native':
        o.native
    elif reads == 'look':
        fixtures.look(o)
    elif reads == 'properties':
        want = dict((k, v) for k, v in fixtures.properties(o).items() if isinstance(v, (bytes, str, int, list, set, dict)))
    c = o.copy()
    if c.__class__ is not o.__class__ or c.dump() != o.dump() and not structs_indefinite(data) or \
            c.copy().dump(force=True) != fixtures.cls(cname).load(data).dump(force=True):
        return '%s: the copy has another encoding' % rel
    if reads != 'look' and c.native != o.native:     # reading .parsed of an octet string changes what .native reports
        return '%s: the copy has another native value' % rel
    if fixtures.look(c) != fixtures.look(o):
        return '%s: the copy reads differently' % rel
    if reads == 'properties':
        got = fixtures.properties(c)
        for k, v in want.items():
            if isinstance(v, list) and v and isinstance(v[0], core.Asn1Value):
                if [x.dump() for x in v] != [x.dump() for x in got[k]]:
                    return '%s: property %s of the copy differs' % (rel, k)
            elif got[k] != v:
                return '%s: property %s of the copy is %r' % (rel, k, got[k])
    if o.dump() != data and not structs_indefinite(data):
        return '%s: copying changes the original' % rel


def structs_indefinite(data):
    from .c15 import indefinite
    return indefinite(data)


class Fixtures(Bounded):
    name = 'copies of the test fixtures'
    rule = 'every single-value fixture, copied after reading nothing, native, everything, every property'
    seconds = 40
    exhaustive = True

    def cases(self, rng, tier):
        for rel, c, b in fixtures.every():
            for mode in ('nothing', 'native', 'look', 'properties'):
                if len(b) < 500000:
                    yield rel, c, mode

    def oracle(self, case):
        return chk_fixture(case)


# ------------------------------------------------------------------------------------------ containers of parsed values
PARSED = (core.ParsableOctetString, core.ParsableOctetBitString, core.Any)


def children(o):
    if isinstance(o, core.Void) or o.contents is None and isinstance(o, core.Primitive):
        return []
    if isinstance(o, core.Choice):
        return [o.chosen]
    if isinstance(o, PARSED):
        try:
            return [o.parsed]
        except (ValueError, TypeError):
            return []
    if isinstance(o, core.Sequence):
        if not o._fields:
            o.native
        return [o[i] for i in range(len(o))]
    if isinstance(o, core.SequenceOf):
        return [o[i] for i in range(len(o))]
    return []


def spots(o, path=()):
    """paths to every place that can be changed"""
    out = []
    if isinstance(o, (core.SequenceOf, core.SetOf)) and len(o):
        out.append(path + ('append',))
        out.append(path + ('drop',))
    for i, x in enumerate(children(o)):
        out += spots(x, path + (i,))
    if isinstance(o, (core.Integer, core.OctetString, core.Boolean, core.ObjectIdentifier, core.AbstractString)) and not isinstance(o, core.AbstractTime) \
            and not isinstance(o, PARSED):
        out.append(path + ('set',))
    if isinstance(o, core.Sequence) and o._fields:
        out += [path + ('clear ' + f[0],) for f in o._fields if len(f) == 3 and f[2].get('optional') and not isinstance(o[f[0]], core.Void)]
    return out


def change(o, path):
    for i in path[:-1]:
        o = children(o)[i]
    w = path[-1]
    if w == 'append':
        o.append(o[0].copy())
    elif w == 'drop':
        del o[0]
    elif w.startswith('clear '):
        o[w[6:]] = None
    elif isinstance(o, core.Boolean):
        o.set(not o.native)
    elif isinstance(o, core.Integer):
        o.set(int(o) + 1 if o._map is None else sorted(o._map)[0])
    elif isinstance(o, core.ObjectIdentifier):
        o.set('1.2.3.4')
    elif isinstance(o, core.OctetString):
        o.set(bytes(o) + b'!' if not isinstance(o, core.IntegerOctetString) else 7)
    else:
        o.set('changed.example.com' if not isinstance(o, x509.IPAddress) else '10.9.8.7')


def scribble(v):
    """changes a native value in place"""
    if isinstance(v, dict):
        for k in list(v):
            scribble(v[k])
        v.clear()
    elif isinstance(v, list):
        for x in v:
            scribble(x)
        del v[:]
    elif isinstance(v, (set, bytearray)):
        v.clear()


class In(core.Sequence):
    _fields = [('n', core.Integer), ('l', core.SequenceOf, {'spec': core.Integer, 'optional': True}), ('o', core.OctetString, {'implicit': 1, 'optional': True})]


class Ns(core.SequenceOf):
    _child_spec = core.Integer


class Either(core.Choice):
    _alternatives = [('i', In), ('s', core.UTF8String), ('n', Ns, {'implicit': 3}), ('w', core.ParsableOctetString, {'implicit': 4})]


class Kind(core.ObjectIdentifier):
    _map = {'1.2.3': 'in', '1.2.4': 'ns', '1.2.5': 'either'}


def holder(cls, **params):
    class Holder(core.Sequence):
        _fields = [('k', Kind), ('v', cls, params)]
        _oid_pair = ('k', 'v')
        _oid_specs = {'in': In, 'ns': Ns, 'either': Either}
    return Holder


HOLDERS = [holder(core.Any), holder(core.Any, optional=True), holder(core.ParsableOctetString), holder(core.ParsableOctetString, implicit=2),
           holder(core.ParsableOctetBitString), holder(core.Any, explicit=0), holder(core.ParsableOctetString, explicit=1)]
INNER = {'in': lambda: In({'n': 5, 'l': [1, 2], 'o': b'xyz'}), 'ns': lambda: Ns([1, 2, 3]),
         'either': lambda: Either('i', In({'n': 5})), 'either ': lambda: Either('w', core.ParsableOctetString(In({'n': 5}).dump()))}


def container(which, kind):
    inner = INNER[kind]()
    if which == 'octets':
        o = core.ParsableOctetString(inner.dump())
    elif which == 'bits':
        o = core.ParsableOctetBitString(inner.dump())
    elif which == 'any':
        o = core.Any(inner)
    elif which == 'loaded any':
        o = core.SequenceOf.load(core.SequenceOf([inner], spec=core.Any).dump(), spec=core.Any)[0]
    elif which == 'loaded octets':
        o = core.ParsableOctetString.load(core.OctetString(inner.dump()).dump())
    else:
        i, how = which
        H = HOLDERS[i]
        o = H({'k': kind.strip(), 'v': inner})
        return H.load(o.dump()) if how else o
    if isinstance(o, PARSED):
        o.parse(type(inner))
    return o


def snap(o):
    # everything is read first: what .native of an octet string shows depends on .parsed having been read
    def text(v):
        return re.sub(r'object at 0x[0-9a-f]+|None, None|0, None', '-', repr(v))
    parts = text(fixtures.look(o))
    return o.copy().dump(), parts, text(schema.plain(o.native)), o.dump(force=True)


def prepare(o, reads):
    for r in reads:
        if r == 'native':
            o.native
        elif r == 'look':
            fixtures.look(o)
        elif r == 'dump':
            o.dump()
        elif r == 'force':
            o.dump(force=True)


def chk_container(case):
    make, reads, how, side, seed = case
    def both():
        o = container(*make) if not isinstance(make, str) else fixtures.cls(dict(fixtures.TABLE)[make]).load(
            [b for r, c, b in fixtures.every() if r == make][0])
        prepare(o, reads)
        c = {'copy': lambda: o.copy(), 'deepcopy': lambda: _copy.deepcopy(o), 'list': lambda: _copy.deepcopy([o])[0], 'twice': lambda: o.copy().copy()}[how]()
        return (o, c) if side else (c, o)
    rng = _random.Random(seed)
    a, b = both()
    want = snap(both()[1])          # what the untouched side must look like: a value with the same history
    ps = spots(a)
    for p in rng.sample(ps, min(len(ps), rng.choice([1, 1, 2, 4]))):
        r, e = attempt(lambda: change(a, p))
        if r == 'ret' and rng.random() < .5:
            attempt(lambda: a.dump(force=True))
    attempt(lambda: scribble(a.native))
    got = snap(b)
    for x, y, n in zip(want, got, ('encoding', 'parts', 'native value', 'forced encoding')):
        if x != y:
            return 'changing the %s changes the %s of the %s: %s' % ('original' if side else 'copy', n, 'copy' if side else 'original', str(y)[:200])


class Containers(Bounded):
    name = 'copies of values with parsed contents, open types and fixtures: changes on one side leave the other alone'
    rule = 'Any, octet and bit strings with parsed contents, alone, nested and as open-type fields; every fixture; read in ' \
           'every order, copied four ways, changed at random places on either side; distinct: the case'
    seconds = 25

    def cases(self, rng, tier):
        makes = [(w, k) for w in ['octets', 'bits', 'any', 'loaded any', 'loaded octets'] + [(i, h) for i in range(len(HOLDERS)) for h in (0, 1)] for k in INNER]
        small = [r for r, c, b in fixtures.every() if len(b) < 4000]
        while True:
            for m in makes + [rng.choice(small) for _ in range(8)]:
                yield (m, tuple(rng.sample(['native', 'look', 'look', 'dump', 'force'], rng.randrange(4))), rng.choice(['copy', 'deepcopy', 'list', 'twice']),
                       rng.randrange(2), rng.getrandbits(30))

    def oracle(self, case):
        return chk_container(case)


WORKS = seq(('a', OCT), ('b', ('octets', imp(0)), 'optional'), ('c', OCT, ('default', b'abc')))
NESTED = seq(('s', seq(('x', ('octets', imp(1)), 'optional'), ('y', OCT))))
LIST = seq(('l', ('seqof', N, OCT)))
OF = ('seqof', N, seq(('x', OCT)))
CHOSEN = seq(('k', ('choice', N, (('p', OCT), ('q', seq(('x', OCT)))))))
CHOICE = ('choice', N, (('p', OCT), ('q', seq(('x', OCT)))))
TAGGED = seq(('t', seq(('x', OCT), tags=exp(0)), 'optional'), ('u', ('octets', exp((1, 3), (2, 1)))))
OUTER = seq(('x', OCT), tags=exp((1, 3), (2, 1)))
SETS = set_(('b', ('octets', imp(1)), 'optional'), ('a', OCT))
UNITS = []
for what, S in (('required, optional and default fields', WORKS), ('a nested sequence', NESTED), ('a list', LIST),
                ('a sequence of sequences', OF), ('a choice as a field', CHOSEN), ('a choice', CHOICE), ('explicit tags', TAGGED),
                ('a tagged sequence', OUTER), ('a set', SETS)):
    small = S in (CHOICE, OUTER)
    UNITS.append(History(what, S, ('copy', WRITES)))
    UNITS.append(History(what, S, (READS, 'copy', WRITES), thorough=not small, count=(1,)))
    UNITS.append(History(what, S, (WRITES, 'copy', WRITES), thorough=not small, count=(1,)))
    UNITS.append(History(what, S, ('copy', 'copy', WRITES), thorough=not small, count=(1,)))
BOUNDED = [Equal, Histories, Fixtures, Containers]
LEVEL = 'other'
