"""C13: SET and SET OF are decoded in any order and encoded in DER order."""
from .common import *  # noqa
from . import structs
from .structs import attempt
from oracle import schema, x690
from .symstruct import *  # noqa
from .c11 import ParseLoop
import random as _random


class Build(structs.Build):
    kinds = structs.KINDS['set']


class BoundedDecode(structs.Decode):
    kinds = structs.KINDS['set']


def chk_order(case):
    S, v, seed = case
    rng = _random.Random(seed)
    e = schema.enc(S, v)
    if S[0] == 'set':
        objs = [('built with the fields as declared', schema.build(S, v))]
        for _ in range(2):
            parts = list(v)
            rng.shuffle(parts)
            o = schema.cls_of(S)(*[] if v else [{}], **schema.params_of(S))
            for n, x in parts:
                o[n] = schema.native_in(dict((k, f) for k, f, q in S[2])[n], x)
            objs.append(('built in the order %r' % ([n for n, _ in parts],), o))
    else:
        objs = []
        for _ in range(3):
            parts = list(v)
            rng.shuffle(parts)
            objs.append(('built from %r' % (parts,), schema.build(S, tuple(parts))))
            o = schema.build(S, tuple(parts[:1]))
            for x in parts[1:]:
                o.append(schema.native_in(S[2], x))
            objs.append(('appended from %r' % (parts,), o))
    for how, o in objs:
        r, d = attempt(o.dump)
        if r != 'ret' or d != e:
            return 'a %s %s encodes as %s and not %s' % (S[0], how, d if r != 'ret' else d.hex(), e.hex())
    # the encoded parts in any order
    outs = len(schema.outers(S))
    con = e
    heads = []
    for _ in range(outs + 1):
        c, m, t, h, con, tr = schema.one(con)
        heads.append((c, m, t))
    for _ in range(3):
        parts = schema.split(con)
        rng.shuffle(parts)
        d = b''.join(parts)
        for c, m, t in reversed(heads):
            d = x690.emit(c, m, t, d)
        r, o = attempt(lambda: schema.load(S, d))
        if r != 'ret':
            return '%s is refused: %s' % (d.hex(), o)
        r, w = attempt(lambda: schema.walk(S, o))
        if r != 'ret' or not schema.same(S, w, v):
            return '%s reads as %r' % (d.hex(), w)
        if o.dump() != d:
            return '%s encodes as %s after reading' % (d.hex(), o.dump().hex())
        if o.dump(force=True) != e:
            return '%s encodes as %s when forced, not %s' % (d.hex(), o.dump(force=True).hex(), e.hex())


class Order(Bounded):
    name = 'components and elements in every order'
    rule = 'random SET and SET OF declarations and values, supplied and encoded in random orders; distinct by declaration and value'
    seconds = 20

    def cases(self, rng, tier):
        while True:
            g, S = structs.decl(rng, ('set', 'setof'))
            if S[0] not in ('set', 'setof'):
                continue
            for _ in range(2):
                yield S, g.value(S), rng.getrandbits(30)

    def oracle(self, case):
        return chk_order(case)


class Histories(structs.Histories):
    kinds = structs.KINDS['set']
    seconds = 15


PAIR = set_(('b', ('octets', imp(1))), ('a', OCT))
MIXED = set_(('b', ('octets', imp(1))), ('a', OCT, 'optional'), ('c', ('octets', imp(0, 1)), ('default', b'zz')))
CLASSES = set_(('p', ('octets', imp(2, 3))), ('u', OCT, 'optional'), ('x', ('octets', imp(3)), 'optional'),
               ('e', ('octets', exp(0)), 'optional'))
PICK = set_(('k', ('choice', N, (('p', ('octets', imp(4))), ('q', ('octets', imp(0)))))), ('m', ('octets', imp(2)), 'optional'))
INSIDE = seq(('s', set_(('b', ('octets', imp(1))), ('a', OCT, 'optional')), 'optional'))

UNITS = [
    Decode('decoding: two required components', PAIR),
    Decode('decoding: a required and an optional component', set_(('b', ('octets', imp(1))), ('a', OCT, 'optional'))),
    Decode('decoding: a default component', set_(('b', ('octets', imp(1)), 'optional'), ('c', OCT, ('default', b'zz')))),
    Decode('decoding: an explicitly tagged component', set_(('b', ('octets', exp(1))), ('a', OCT, 'optional'))),
    Decode('decoding: required, optional and default components', MIXED, thorough=True),
    Decode('decoding: elements of a set of', ('setof', N, OCT)),
    Encode('encoding: two required components', PAIR),
    Encode('encoding: required, optional and default components', MIXED),
    Encode('encoding: components of every class', CLASSES),
    Encode('encoding: a choice component', PICK),
    Encode('encoding: a set as a field', INSIDE),
    Encode('encoding: components assigned in any order', MIXED, way='order'),
    Encode('encoding: elements of a set of', ('setof', N, OCT)),
    Encode('encoding: elements appended in any order', ('setof', N, OCT), way='order'),
    Encode('encoding: sets of choices', ('setof', N, ('choice', N, (('p', OCT), ('q', ('octets', imp(0))))))),
    ParseLoop('SetOf'),
]
BOUNDED = [Build, BoundedDecode, Order, Histories]
