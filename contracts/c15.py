"""C15: load then dump reproduces the bytes; a forced dump is stable, value-true DER."""
from .common import *  # noqa
from . import structs
from .structs import attempt
from .symhist import *  # noqa
from .symhist import READS as READ
from .symstruct import Decode as SymDecode, Bad
from oracle import schema, x690, fixtures
import random as _random


def indefinite(data):
    """is there an indefinite length anywhere"""
    for d in schema.split(data):
        c, m, t, h, con, tr = schema.one(d)
        if tr or m and indefinite(con):
            return True
    return False


READS = ['native', 'walk', 'contents', 'repr', 'copy', 'dump', 'force', 'some', 'debug']


def chk_ber(case):
    S, v, data, reads, seed = case
    rng = _random.Random(seed)
    der = schema.enc(S, v)
    r, o = attempt(lambda: schema.load(S, data))
    if r != 'ret':
        return '%s is refused: %s' % (data.hex(), o)

    def unchanged(after):
        d = o.dump()
        if 'force' in reads:
            return
        if d != data and not indefinite(data):
            return 'after %s %s encodes as %s' % (after, data.hex(), d.hex())
        if d != data and not schema.same(S, schema.dec(S, d), v):
            return 'after %s %s encodes as %s, another value' % (after, data.hex(), d.hex())
    done = []
    for w in reads:
        done.append(w)
        if w == 'native':
            r, n = attempt(lambda: schema.plain(o.native))
            if r != 'ret' or not structs.contains(S, ('setof', 'set')) and n != schema.native_out(S, v):
                return 'after %r %s has the native value %r' % (done, data.hex(), n)
        elif w == 'walk':
            r, n = attempt(lambda: schema.walk(S, o))
            if r != 'ret' or not schema.same(S, n, v):
                return 'after %r %s reads as %r' % (done, data.hex(), n)
        elif w == 'some':
            x, T = o, S
            while True:
                if T[0] in ('seq', 'set'):
                    n, f, q = rng.choice(T[2])
                    x = x[n]
                    if x.native is None and f[0] != 'null':
                        break
                    T = f
                elif T[0] in ('seqof', 'setof') and len(x):
                    x, T = x[rng.randrange(len(x))], T[2]
                elif T[0] == 'choice':
                    x, T = x.chosen, dict(T[2])[x.name]
                else:
                    break
        elif w == 'contents':
            o.contents
        elif w == 'repr':
            repr(o)
        elif w == 'copy':
            c = o.copy()
            if not schema.same(S, schema.dec(S, c.dump()), v):
                return 'after %r the copy encodes as %s' % (done, c.dump().hex())
        elif w == 'debug':
            import io
            import contextlib
            with contextlib.redirect_stdout(io.StringIO()):
                r, x = attempt(o.debug)
            if r == 'escaped':
                return 'debug() of %s: %s' % (data.hex(), x)
        elif w == 'force':
            if o.dump(force=True) != der:
                return 'after %r a forced dump of %s is %s and not %s' % (done, data.hex(), o.dump(force=True).hex(), der.hex())
        bad = unchanged(done)
        if bad:
            return bad
    for k in range(2):
        f = o.dump(force=True)
        if f != der:
            return 'after %r a forced dump of %s is %s and not %s' % (done, data.hex(), f.hex(), der.hex())
    if o.dump() != der:
        return 'after forcing, %s encodes as %s' % (data.hex(), o.dump().hex())
    if not schema.same(S, schema.walk(S, o), v):
        return 'after forcing, %s reads as %r' % (data.hex(), schema.walk(S, o))
    back = schema.load(S, der)
    if not structs.contains(S, ('setof', 'set')) and schema.plain(back.native) != schema.plain(o.native):
        return 'the forced dump of %s has the native value %r' % (data.hex(), back.native)


class Reload(Bounded):
    name = 'loaded encodings'
    rule = 'random declarations and values in random BER and DER encodings, up to four reads before dumping; distinct by bytes and reads'
    seconds = 30

    def cases(self, rng, tier):
        while True:
            g, S = structs.decl(rng)
            v = g.value(S)
            for how in (schema.DER, schema.Ber(rng), schema.Ber(rng)):
                yield S, v, schema.enc(S, v, how), tuple(rng.sample(READS, rng.randrange(0, 5))), rng.getrandbits(30)

    def oracle(self, case):
        return chk_ber(case)


def chk_fixture(case):
    rel, cname, mode = case
    data = [b for r, c, b in fixtures.every() if (r, c) == (rel, cname)][0]
    cls = fixtures.cls(cname)
    o = cls.load(data)
    ind = indefinite(data)
    if mode == 'native':
        o.native
    elif mode == 'look':
        fixtures.look(o)
    elif mode == 'properties':
        for k, x in fixtures.properties(o).items():
            pass
    elif mode == 'copy':
        o = o.copy()
    d = o.dump()
    if d != data and not ind:
        return '%s: after %s the encoding is different' % (rel, mode)
    if len(data) > 500000:
        return
    first = o.dump(force=True)
    if indefinite(first):
        return '%s: a forced dump has indefinite lengths' % rel
    if o.dump(force=True) != first or o.dump() != first:
        return '%s: a second forced dump is different' % rel
    a, b = cls.load(data), cls.load(first)
    if repr(a.native) != repr(b.native) and len(repr(a.native)) != len(repr(b.native)):
        return '%s: the forced dump has another native value' % rel
    if fixtures.look(a) != fixtures.look(b):
        return '%s: the forced dump reads differently' % rel
    c = cls.load(first)
    if c.dump(force=True) != first:
        return '%s: a forced dump of the forced dump is different' % rel


class Fixtures(Bounded):
    name = 'encoded values of the test fixtures'
    rule = 'every single-value fixture, after reading nothing, native, everything, every property, after copying'
    seconds = 40
    exhaustive = True

    def cases(self, rng, tier):
        for rel, c, b in fixtures.every():
            for mode in ('nothing', 'native', 'look', 'properties', 'copy'):
                if len(b) > 500000 and mode != 'nothing':
                    continue
                yield rel, c, mode

    def oracle(self, case):
        return chk_fixture(case)


READING = ['dump', 'native', 'contents', 'walk', 'copy']


class Fidelity(SymDecode):
    """any byte string that is accepted under a declaration: after any two reads it encodes to the bytes it was loaded from, and
    when forced, to the DER of the value those bytes hold; forcing again changes nothing"""
    covers = ('done',)
    time_s = 300
    max_paths = 50000
    assumptions = ('contracts of parser._dump_header (C01) and parser._parse (C02)',)

    def __init__(self, name, S, reads=2, thorough=False):
        SymDecode.__init__(self, name, S, thorough=thorough)
        self.reads = reads
        self.bounded_note = 'the declaration and the number of reads are fixed; elements have any class, method, tag and contents'

    def run(self, it):
        c = it.ctx
        S = self.S
        w = Wire(it, split=False)
        data = c.in_bytes('data', 1)
        r = Ref(w)
        k, o = outcome(it, schema.cls_of(S).load, data, strict=True, **schema.params_of(S))
        try:
            ref = plain(r.dec(S, r.only(data)))
        except Bad:
            return
        c.prove('it is accepted', k == 'ret')
        if k != 'ret':
            return
        for j in range(self.reads):
            what = READING[c.choose(len(READING))]
            c.input('read%d' % j, what)
            if what == 'dump':
                kk, d = meth(it, o, 'dump')
                c.prove('in between, it encodes to the bytes it was read from', kk == 'ret' and is_bytes(d) and beq(it, d, data))
            elif what == 'walk':
                agree(it, S, Fields(it).walk(S, o), ref, '')
            elif what == 'copy':
                kk, d = meth(it, o, 'copy')
            else:
                kk, d = getp(it, o, what)
            c.prove('reading succeeds', what == 'walk' or kk == 'ret')
        k, d = meth(it, o, 'dump')
        c.prove('it encodes to the bytes it was read from', k == 'ret' and is_bytes(d) and beq(it, d, data))
        k, d = meth(it, o, 'dump', True)
        want = senc(w, S, ref)
        c.cover('done')
        c.prove('forced, it encodes as the DER of its value', k == 'ret' and is_bytes(d) and beq(it, d, want))
        k, d = meth(it, o, 'dump')
        c.prove('and so it stays', k == 'ret' and is_bytes(d) and beq(it, d, want))
        k, d = meth(it, o, 'dump', True)
        c.prove('forced again it is the same', k == 'ret' and is_bytes(d) and beq(it, d, want))
        agree(it, S, Fields(it).walk(S, o), ref, '', 'reads as before')

    def oracle(self, i):
        data = i['data']
        try:
            v = schema.dec(self.S, data)
        except (x690.Bad, schema.Unclear):
            return None
        reads = [i[k] for k in sorted(i) if k.startswith('read')]
        return chk_ber((self.S, v, data, [x for x in reads if x in READS], 0))


def plain(ref):
    """the value of a reference reading, without fields that hold their default because they are absent"""
    if ref[0] == 'fields':
        return tuple((n, plain(x)) for n, x in ref[1] if x is not None and x[0] != 'default')
    if ref[0] == 'choice':
        return ref[1], plain(ref[2])
    return ref[2]


WORKS = seq(('a', OCT), ('b', ('octets', imp(0)), 'optional'), ('c', OCT, ('default', b'abc')))
TAGGED = seq(('a', ('octets', exp(0)), 'optional'), ('b', ('octets', exp((1, 3), (2, 1)))))
NESTED = seq(('b', seq(('x', OCT, 'optional'), ('y', ('octets', imp(1)))), 'optional'))
CHOSEN = seq(('k', ('choice', N, (('p', OCT), ('q', seq(('x', OCT)))))))
CHOICE = ('choice', exp(1), (('p', OCT), ('q', seq(('x', OCT)))))
SETS = set_(('b', ('octets', imp(1)), 'optional'), ('a', OCT))
UNITS = []
for what, S in (('required, optional and default fields', WORKS), ('explicitly tagged fields', TAGGED), ('a nested sequence', NESTED),
                ('a required and a default field', seq(('a', ('octets', imp(1))), ('c', OCT, ('default', b'abc')))),
                ('a required and an optional field', seq(('b', ('octets', imp(0)), 'optional'), ('a', OCT))),
                ('a choice as a field', CHOSEN), ('a tagged choice', CHOICE), ('a set', SETS),
                ('a tagged string', ('octets', exp((1, 3), (2, 1)))),
                ('a tagged sequence', ('seq', ((1, 5), (), ('e', ((2, 0),), 'num')), (('a', OCT, None),)))):
    UNITS.append(Fidelity('one read of ' + what, S, 1, thorough=S in (NESTED, WORKS)))
    UNITS.append(Fidelity('two reads of ' + what, S, 2, thorough=S[0] != 'octets'))
for what, S in (('required, optional and default fields', WORKS), ('a nested sequence', NESTED), ('explicit tags', TAGGED),
                ('a sequence of sequences', ('seqof', N, seq(('x', OCT)))), ('a set', SETS)):
    UNITS.append(History('its own encoding of ' + what, S, (READ, READ), start=('der',), thorough=S is WORKS))
BOUNDED = [Reload, Fixtures]
LEVEL = 'other'
