"""C03: indefinite-length values end at their matching end marker, to a bounded depth.
The specification is that of C02's contract of parser._parse: END is the least solution of the recursive
equations (value = header + complete values + 00 00 at the same level), OK is false beyond depth 10."""
from .common import *  # noqa
from .c02 import ParseSpec, ParseCases, chk_low, chk_parse, LIMIT
from oracle import x690


class DepthLimit(Unit):
    """whatever the data, a call below the limit is refused at once (no further recursion)"""
    name = 'parser._parse: depth limit'
    targets = ('asn1crypto.parser._parse',)

    def run(self, it):
        c = it.ctx
        data = c.in_bytes('data', 0)
        ptr = c.in_int('pointer', 0)
        dep = c.in_int('depth', LIMIT + 1)
        lo = c.in_bool('lengths_only')
        if isinstance(data, SBytes):
            c.assume(ptr.z <= bound(blen(data)))

        def rec(it_, f, args, kwargs):
            if calls_self(it, f):
                c.prove('no recursion beyond the limit', False)
            return MISSING
        it.contracts = {'asn1crypto.parser._parse': rec}
        k, r = outcome(it, parser._parse, data, SInt(bound(blen(data))), ptr, lo, dep)
        c.prove('refused', k == 'exc')
        c.prove('with ValueError', isinstance(r, ValueError))

    def oracle(self, i):
        return chk_low(i['data'], i['pointer'], min(i['depth'], 10 ** 6), i['lengths_only'])


class Nesting(Bounded):
    name = 'nested indefinite-length values'
    rule = 'indefinite-length values nested 1..14, 50, 5000 deep with zero bytes in nested values, with and without end ' \
           'markers, truncated and mutated; distinct by the bytes'
    seconds = 10

    def cases(self, rng, tier):
        for d in (5000, 200000):
            yield b'\x30\x80' * d
            yield b'\x30\x80' * d + b'\x00\x00' * d
        for d in range(1, 15):
            v = b'\x30\x80' * d + b'\x00\x00' * d
            yield v
            yield v[:-1]
            yield v[:-2]
            yield v[:-1] + b'\x01'
            yield v + b'\x00\x00'
            yield b'\x30\x80' * d + b'\x04\x02\x00\x00' + b'\x00\x00' * d
            yield b'\x30\x80' * d + b'\x30\x03\x04\x01\x00' + b'\x00\x00' * d
        for first in range(256):
            yield bytes([first]) + b'\x80\x00\x00'
            yield bytes([first]) + b'\x80\x04\x01\x00\x00\x00'
        while True:
            v = gen.nested_indef(rng, rng.choice([1, 1, 2, 2, 3, 4, 9, 10, 11, 12]))
            yield v
            yield v + b'\x00\x00'
            for _ in range(4):
                yield gen.mutate(rng, v)
            for i in range(0, len(v), max(1, len(v) // 7)):
                yield v[:i]

    def oracle(self, case):
        if len(case) > 2000:
            try:
                parser.parse(case)
            except ValueError:
                pass
            else:
                return 'nesting %d levels deep was accepted' % (case.count(b'\x80'))
            for f in (core.load, core.Sequence.load):
                try:
                    f(case)
                except ValueError:
                    continue
                return '%r accepted nesting far beyond the limit' % f
            return None
        m = chk_parse(case)
        if m or case[:1] != b'\x30':
            return m
        try:
            (cls, me, tag, h, cont, tr), end = x690.parse(case)
        except x690.Bad:
            try:
                core.Sequence.load(case)
            except ValueError:
                return None
            return 'Sequence.load accepted %s' % case[:40].hex()
        v = core.Sequence.load(case)
        got = v._header, v.contents, v._trailer
        if got != (h, cont, tr):
            return 'Sequence.load(%s) split %r, X.690 says %r' % (case[:40].hex(), got, (h, cont, tr))
        return None


UNITS = [ParseSpec('indefinite'), ParseSpec('no header'), DepthLimit]
BOUNDED = [Nesting]
