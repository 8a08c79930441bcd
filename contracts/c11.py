"""C11: SEQUENCE values encode and decode field by field, with optional and default.

Units decode every byte string and encode every value of a list of declarations through the real core code (symstruct); the loop
over the elements of a SEQUENCE OF is decided for any number of elements by induction.  The bounded parts draw declarations at
random."""
from .common import *  # noqa
from . import structs
from .symstruct import *  # noqa
import ast
from pyvc.interp import assigned_names
from .c05 import PathEndNow
from oracle import x690


class Build(structs.Build):
    kinds = structs.KINDS['seq']


class BoundedDecode(structs.Decode):
    kinds = structs.KINDS['seq']


class ParseLoop(Unit):
    """any number of elements: induction over the loop of SequenceOf._parse_children, against the contract of _parse"""
    targets = ('asn1crypto.core.SequenceOf._parse_children',)
    covers = ('no elements', 'first element', 'later element', 'after the last element')
    assumptions = ('contract of parser._parse (C02)',)

    def __init__(self, cls):
        self.cls = cls
        self.name = '%s._parse_children: every element, in order, for any number of elements' % cls

    def run(self, it):
        c = it.ctx
        sub = getattr(core, self.cls)
        cls = type(sub)('Of', (sub,), {'_child_spec': core.OctetString})
        con = c.in_bytes('contents', 0)
        n = bound(blen(con))
        o = cls()
        it.setattr(o, 'contents', con)
        state = {'calls': 0}
        phase = c.choose(3)

        def parse(it_, f, args, kwargs):
            a = names_bound(f, args, kwargs)
            if a is None:
                return MISSING
            c.prove('elements are read from the contents', is_bytes(a['encoded_data']) and beq(it, a['encoded_data'], con))
            p = Z(a['pointer'])
            c.prove('an element is read where the one before ended', p == state['at'])
            c.prove('within the contents', z3.And(p >= 0, p < n, Z(a['data_len']) == n))
            nxt = c.fresh_int('next')
            c.fact(z3.And(nxt.z > p, nxt.z <= n))
            state['next'] = nxt.z
            state['calls'] += 1
            state['parts'] = (0, 0, 4, c.fresh_bytes('header', 2), c.fresh_bytes('part', 0), b'')
            return (state['parts'], nxt)

        before_ = [(0, 0, 4, b'\x04\x01', b'x', b'', core.OctetString)]

        def handler(it_, node, fr, seq):
            if not isinstance(node, ast.While) or fr.qualname.split('.')[-1] != '_parse_children':
                return MISSING
            mod = assigned_names(node.body) & set(fr.locals)
            ptrs = [m for m in mod if isinstance(fr.locals[m], int) and fr.locals[m] == 0]
            if len(ptrs) != 1 or o.children != []:
                raise Unsupported('the loop has another form')
            ptr = ptrs[0]
            if phase == 0:
                c.assume(n == 0)
                c.cover('no elements')
                c.prove('the loop ends at once', not it.truth(it.eval(node.test, fr)))
                return None
            c.assume(n > 0)
            if phase == 1:
                first = c.choose(2)
                c.cover('first element' if first else 'later element')
                before = [] if first else list(before_)
                state['at'] = z3.IntVal(0)
                if not first:
                    p = c.fresh_int('pointer')
                    c.fact(z3.And(p.z > 0, p.z < n))
                    fr.locals[ptr] = p
                    o.children = list(before)
                    state['at'] = p.z
                c.prove('the loop goes on before the end', it.truth(it.eval(node.test, fr)))
                r = it.exec_block(node.body, fr)
                c.prove('the loop runs over every element', r is None or r[0] == 'continue')
                c.prove('exactly one element is read', state['calls'] == 1)
                ch = o.children
                c.prove('it is appended', isinstance(ch, list) and len(ch) == len(before) + 1 and
                        all(x is y for x, y in zip(ch, before)))
                x = ch[-1]
                c.prove('it keeps its octets', isinstance(x, tuple) and len(x) >= 7 and
                        all(a is b for a, b in zip(x, state['parts'])) and x[6] is core.OctetString)
                c.prove('pointer advances', Z(fr.locals[ptr]) == state['next'])
                raise PathEndNow()
            c.cover('after the last element')
            o.children = list(before_)
            fr.locals[ptr] = SInt(n)
            c.prove('the loop ends at the end', not it.truth(it.eval(node.test, fr)))
            return it.exec_block(node.orelse, fr) if node.orelse else None

        it.loop_handlers.append(handler)
        it.contracts = {'asn1crypto.parser._parse': parse}
        try:
            k, r = meth(it, o, '_parse_children')
        except PathEndNow:
            return
        c.prove('returns', k == 'ret')
        c.prove('the elements read', o.children == ([] if phase == 0 else before_))

    def oracle(self, i):
        return structs.chk_decode((('seqof' if self.cls == 'SequenceOf' else 'setof', N, ('octets', N)),
                                   x690.emit(0, 1, 16 if self.cls == 'SequenceOf' else 17, i['contents'])))


WORKS = seq(('a', OCT), ('b', ('octets', imp(0)), 'optional'), ('c', OCT, ('default', b'abc')))
TAGGED = seq(('a', ('octets', exp(0)), 'optional'), ('b', ('octets', exp((1, 3), (2, 1)))))
NESTED = seq(('a', OCT), ('b', seq(('x', OCT, 'optional'), ('y', ('octets', imp(1)))), 'optional'))
FREE = seq(('a', OCT, 'optional'), ('b', ('octets', imp(0)), 'optional'), ('c', ('octets', imp(1, 1)), 'optional'))
CHOSEN = seq(('a', ('choice', N, (('p', OCT), ('q', ('octets', imp(0)))))), ('b', OCT, 'optional'))
LISTED = seq(('a', ('seqof', N, OCT), 'optional'), ('b', ('octets', imp(0)), ('default', b'')))
NULLS = seq(('a', ('null', N), 'optional'), ('b', ('bool', N), ('default', False)), ('c', ('octets', imp(31, 3)), 'optional'))

UNITS = [
    Decode('decoding: required, optional and default fields', WORKS),
    Decode('decoding: explicitly tagged fields', TAGGED),
    Decode('decoding: a nested sequence', NESTED),
    Decode('decoding: optional fields only', FREE),
    Decode('decoding: a choice field and an optional one', CHOSEN),
    Decode('decoding: elements of a sequence of', ('seqof', N, OCT)),
    Encode('encoding: required, optional and default fields', WORKS),
    Encode('encoding: explicitly tagged fields', TAGGED),
    Encode('encoding: a nested sequence', NESTED),
    Encode('encoding: optional fields only', FREE),
    Encode('encoding: a choice field and an optional one', CHOSEN),
    Encode('encoding: a sequence of as a field', LISTED),
    Encode('encoding: elements of a sequence of', ('seqof', N, OCT)),
    ParseLoop('SequenceOf'),
]
BOUNDED = [Build, BoundedDecode]
