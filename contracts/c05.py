"""C05: object identifiers - dotted text and DER contents are inverse bijections."""
import ast
from .common import *  # noqa
from .c01 import enc_templates, dec_templates
from oracle import x690
from pyvc.models import OpaqueList
from pyvc.interp import assigned_names
from pyvc.loops import is_temp
from pyvc.values import DecText, OpaqueText

ARC = z3.Function('arc', z3.IntSort(), z3.IntSort())


def prove_arc(it, name, b, v):
    """b is the shortest base-128 form of v"""
    c = it.ctx
    n = bound(blen(b))
    c.prove(name + ': at least one octet', n >= 1)
    c.prove(name + ': continuation bits', theory.all_high(b, simp(n - 1)))
    c.prove(name + ': last octet ends the arc', at(it, b, simp(n - 1)) < 128)
    c.prove(name + ': value', bound(theory.v128(c, b)) == Z(v))
    c.prove(name + ': no padding octet', at(it, b, 0) != 128)


class SetFewArcs(Unit):
    """every dotted text of k arcs, arcs any integers"""
    targets = ('asn1crypto.core.ObjectIdentifier.set',)
    loop_templates = (enc_templates,)
    termination = True

    def __init__(self, k):
        self.k = k
        self.name = 'ObjectIdentifier.set: %d arcs of any size' % k
        self.covers = ('accepted', 'refused') if k > 1 else ('refused',)

    def run(self, it):
        c = it.ctx
        arcs = [c.in_int('arc%d' % i) for i in range(self.k)]
        parts = []
        for i, a in enumerate(arcs):
            parts += ([] if not i else ['.']) + [DecText(a.z)]
        text = mkstr(parts)
        ok = z3.And(*[a.z >= 0 for a in arcs])
        if self.k >= 2:
            ok = z3.And(ok, arcs[0].z <= 2, z3.Or(arcs[0].z == 2, arcs[1].z < 40))
        else:
            ok = z3.BoolVal(False)
        prior = c.choose(2)
        o = core.ObjectIdentifier('1.2.3') if prior else core.ObjectIdentifier()
        if prior:
            o.dotted, o.native, o.dump()
        k, r = meth(it, o, 'set', text)
        if k == 'exc':
            c.cover('refused')
            c.prove('refused with ValueError', isinstance(r, ValueError))
            c.prove('only invalid arcs refused', z3.Not(ok))
            return
        c.cover('accepted')
        c.prove('invalid arcs refused', ok)
        con = it.getattr(o, 'contents')
        c.prove('contents are bytes', is_bytes(con))
        # cut the contents at the arc boundaries the atoms give, else only the whole can be judged
        rest = con
        want = [SInt(simp(arcs[0].z * 40 + arcs[1].z))] + arcs[2:]
        pieces = split_arcs(it, rest, len(want))
        for i, (p, w) in enumerate(zip(pieces, want)):
            prove_arc(it, 'arc %d' % i, p, w)
        k, n = getp(it, o, 'native')
        c.prove('native is the new text', k == 'ret' and Z(it.models.eq(it, n, text)))

    def oracle(self, i):
        return chk_text('.'.join(str(i['arc%d' % j]) for j in range(self.k)))


def split_arcs(it, con, n):
    """cut the rope where an arc must end: at octets without continuation bit (proved afterwards piece by piece)"""
    atoms = list(atoms_of(con))
    # atoms were produced arc by arc; an arc is [prefix view] + final octet(s).  Try every grouping into n pieces
    # whose last octet is below 128 and whose earlier atoms are continuation octets.
    ends = []
    start = 0
    for a in atoms:
        start = addz(start, a.n())
        last = at(it, con, simp(bound(start) - 1)) if it.ctx.implied(bound(start) >= 1) else None
        if last is not None and it.ctx.implied(bound(last) < 128):
            if isinstance(a, Lit):
                base = simp(bound(start) - len(a.b))
                for j, x in enumerate(a.b):
                    if x < 128:
                        ends.append(addz(base, j + 1))
            else:
                ends.append(start)
    if len(ends) != n:
        raise Unsupported('cannot cut the encoded arcs (%d ends for %d arcs)' % (len(ends), n))
    out, prev = [], 0
    for e in ends:
        out.append(slc(it, con, prev, e))
        prev = e
    return out


class SetManyArcs(Unit):
    """any number of arcs: induction over the loop of ObjectIdentifier.set.  The first two arcs are SetFewArcs(2); here
    an arbitrary later arc is appended to an arbitrary accumulated encoding."""
    name = 'ObjectIdentifier.set: every further arc appends its shortest encoding'
    targets = ('asn1crypto.core.ObjectIdentifier.set',)
    loop_templates = (enc_templates,)
    termination = True
    covers = ('step', 'after the loop')

    def run(self, it):
        c = it.ctx
        n = c.fresh_int('number of arcs', 3)
        c.assume(z3.And(ARC(0) >= 0, ARC(0) <= 2, ARC(1) >= 0, z3.Or(ARC(0) == 2, ARC(1) < 40)))
        c.input('arc0', SInt(ARC(0)))
        c.input('arc1', SInt(ARC(1)))
        text = SStr([OpaqueText('dotted', None, ('pieces', '.', n.z, lambda i: SStr([DecText(ARC(bound(i)))])))])
        what = c.choose(3)
        step, prior = what == 0, what == 2

        def handler(it, node, fr, seq):
            if not fr.qualname.endswith('ObjectIdentifier.set') or seq is None:
                return MISSING
            for i in range(2):
                it.assign(node.target, seq.item(i), fr)
                r = it.exec_block(node.body, fr)
                if r is not None and r[0] != 'continue':
                    raise Unsupported('loop leaves early')
            mod = assigned_names(node.body) & set(fr.locals)
            accs = [m for m in mod if isinstance(fr.locals[m], (SBytes, bytes)) and not is_temp(m, node)]
            if len(accs) != 1:
                raise Unsupported('no single accumulator')
            acc = accs[0]
            if step:
                # one arbitrary iteration
                c.cover('step')
                before = c.fresh_bytes('accumulated', 1)
                fr.locals[acc] = before
                kept = dict((m, fr.locals[m]) for m in mod if m != acc and not is_temp(m, node))
                i = c.fresh_z('i')
                c.fact(z3.And(i >= 2, i < n.z))
                a = c.input('arc_i', SInt(ARC(i)))
                it.assign(node.target, seq.item(i), fr)
                try:
                    r = it.exec_block(node.body, fr)
                except PyRaise as e:
                    c.prove('refused with ValueError', isinstance(e.exc, ValueError))
                    c.prove('only negative arcs refused', a.z < 0)
                    raise PathEndNow()
                c.prove('negative arc refused', a.z >= 0)
                if r is not None and r[0] != 'continue':
                    c.prove('loop runs over every arc', False)
                after = fr.locals[acc]
                m = bound(blen(before))
                c.prove('earlier arcs kept', z3.And(bound(blen(after)) >= m, beq(it, slc(it, after, 0, m), before)))
                prove_arc(it, 'arc i', slc(it, after, m, None), a)
                for m_, v in kept.items():
                    if fr.locals.get(m_) is not v:
                        c.prove('loop keeps %s' % 'other state', Z(it.models.eq(it, fr.locals.get(m_), v)))
                raise PathEndNow()
            c.cover('after the loop')
            unit_final = it.ghost['final'] = c.fresh_bytes('all arcs', 2)
            for m in mod:
                if m != acc and is_temp(m, node):
                    fr.locals.pop(m, None)
            fr.locals[acc] = unit_final
            return it.exec_block(node.orelse, fr) if node.orelse else None
        it.loop_handlers.append(handler)
        o = core.ObjectIdentifier('1.2.3') if prior else core.ObjectIdentifier()
        if prior:
            o.dotted, o.native, o.dump()
        try:
            k, r = meth(it, o, 'set', text)
        except PathEndNow:
            return
        c.prove('accepted', k == 'ret')
        c.prove('contents are the accumulated encoding', beq(it, it.getattr(o, 'contents'), it.ghost['final']))
        k, n_ = getp(it, o, 'native')
        c.prove('native is the new text', k == 'ret' and n_ is text)
        c.prove('dotted form forgotten', o.__dict__.get('_dotted') is None or o.__dict__.get('_dotted') is text)

    def oracle(self, i):
        if 'arc_i' not in i:
            return None
        return chk_text('%d.%d.%d' % (i['arc0'], i['arc1'], i['arc_i'])) or \
            chk_text('%d.%d.7.%d.1' % (i['arc0'], i['arc1'], i['arc_i']))


from pyvc.values import EngineSignal


class PathEndNow(EngineSignal):
    pass


class Dotted(Unit):
    """any contents: the loop of ObjectIdentifier.dotted, one arbitrary octet from an arbitrary loop state"""
    name = 'ObjectIdentifier.dotted: fold over the contents octets'
    targets = ('asn1crypto.core.ObjectIdentifier.dotted',)
    covers = ('octet continues', 'octet ends first arc', 'octet ends later arc', 'padding refused', 'all octets read',
              'truncated refused')

    def run(self, it):
        c = it.ctx
        con = c.in_bytes('contents', 1)
        o = core.ObjectIdentifier()
        it.setattr(o, 'contents', con)

        def handler(it, node, fr, seq):
            if not fr.qualname.endswith('ObjectIdentifier.dotted'):
                return MISSING
            mod = assigned_names(node.body) & set(fr.locals)
            lists = [m for m, v in fr.locals.items() if isinstance(v, list) and m in fr.locals]
            state = [m for m in mod if not is_temp(m, node)]
            ints = [m for m in state if isinstance(fr.locals[m], (SInt, int)) and not isinstance(fr.locals[m], bool)]
            bools = [m for m in state if isinstance(fr.locals[m], bool)]
            if len(lists) != 1 or len(ints) != 1 or len(bools) > 1 or len(ints) + len(bools) != len(state):
                raise Unsupported('loop state of dotted not recognised')
            L, P = lists[0], ints[0]
            Q = bools[0] if bools else None
            c.prove('starts with no arcs', fr.locals[L] == [])
            c.prove('starts with value 0', fr.locals[P] == 0)
            if Q:
                c.prove('starts outside an arc', fr.locals[Q] is False)
            what = c.choose(3)
            if what < 2:
                pre = [] if what == 0 else OpaqueList('earlier arcs', c.fresh_int('earlier', 2).z)
                fr.locals[L] = pre
                p = c.in_int('pending', 0)
                q = c.fresh_bool('in arc')
                c.assume(z3.If(q.z, p.z >= 1, p.z == 0))
                fr.locals[P] = p
                if Q:
                    fr.locals[Q] = q
                b = c.in_int('octet', 0, 255)
                it.assign(node.target, b, fr)
                try:
                    r = it.exec_block(node.body, fr)
                except PyRaise as e:
                    c.cover('padding refused')
                    c.prove('refused with ValueError', isinstance(e.exc, ValueError))
                    c.prove('only padding refused', z3.And(b.z == 128, z3.Not(q.z)))
                    raise PathEndNow()
                if r is not None and r[0] != 'continue':
                    c.prove('loop reads every octet', False)
                c.prove('padding refused', z3.Not(z3.And(b.z == 128, z3.Not(q.z))))
                now = fr.locals[L]
                c.prove('same list', now is pre)
                new = list(now) if what == 0 else list(now.tail)
                v = simp(p.z * 128 + b.z % 128)
                if c.branch(b.z >= 128):
                    c.cover('octet continues')
                    c.prove('no arc added', new == [])
                    c.prove('pending value', Z(fr.locals[P]) == v)
                    if Q:
                        c.prove('inside an arc', Z(fr.locals[Q]))
                    raise PathEndNow()
                want = [SInt(v)]
                if what == 0:
                    c.cover('octet ends first arc')
                    first = z3.If(v >= 80, 2, z3.If(v >= 40, 1, 0))
                    want = [SInt(simp(first)), SInt(simp(v - 40 * first))]
                else:
                    c.cover('octet ends later arc')
                c.prove('arcs added', len(new) == len(want))
                for x, w in zip(new, want):
                    c.prove('arc text', Z(arc_text_is(it, x, w)))
                c.prove('pending reset', Z(fr.locals[P]) == 0)
                if Q:
                    c.prove('outside an arc', z3.Not(Z(fr.locals[Q])))
                raise PathEndNow()
            c.cover('all octets read')
            q = c.in_bool('ends within an arc')
            it.ghost['q'] = q
            fr.locals[L] = it.ghost['L'] = OpaqueList('arcs of the contents', c.fresh_int('arcs', 2).z)
            p = c.fresh_int('pend', 0)
            c.assume(z3.If(q.z, p.z >= 1, p.z == 0))
            fr.locals[P] = p
            if Q:
                fr.locals[Q] = q
            fr.locals.pop(next(iter(assigned_names([ast.Assign([node.target], ast.Constant(0))]))), None)
            return it.exec_block(node.orelse, fr) if node.orelse else None
        it.loop_handlers.append(handler)
        try:
            k, r = getp(it, o, 'dotted')
        except PathEndNow:
            return
        q = it.ghost.get('q')
        if q is None:
            raise Unsupported('dotted does not loop over the contents')
        if k == 'exc':
            c.cover('truncated refused')
            c.prove('refused with ValueError', isinstance(r, ValueError))
            c.prove('only truncated contents refused', q.z)
            return
        c.prove('truncated contents refused', z3.Not(q.z))
        c.prove('dotted text is the arcs joined by dots', isinstance(r, SStr) and len(r.parts) == 1 and isinstance(
            r.parts[0], OpaqueText) and r.parts[0].info is not None and r.parts[0].info[:2] == ('join', '.') and
            r.parts[0].info[2] is it.ghost['L'])
        k, r2 = getp(it, o, 'dotted')
        c.prove('second read is the same', k == 'ret' and r2 is r)

    def oracle(self, i):
        return chk_contents(i['contents']) or (chk_contents(bytes([42]) + ref_arc(i['pending'])[:-1] + bytes([i['octet']]))
                                               if 'octet' in i else None)


def arc_text_is(it, x, v):
    if isinstance(x, str):
        return mkbool(z3.And(Z(v) == int(x), z3.BoolVal(str(int(x)) == x))) if x.isdigit() else False
    if isinstance(x, SStr) and len(x.parts) == 1 and isinstance(x.parts[0], DecText):
        return mkbool(bound(x.parts[0].z) == Z(v))
    return False


def ref_arc(v):
    out = [v % 128]
    v //= 128
    while v:
        out.append(128 + v % 128)
        v //= 128
    return bytes(reversed(out))


import re
VALID = re.compile(r'(0|[1-9][0-9]*)(\.(0|[1-9][0-9]*))+\Z', re.A)


def ref_contents(text):
    """contents of a dotted text, or None if it is not an OID"""
    if not VALID.match(text):
        return None
    arcs = [int(x) for x in text.split('.')]
    if arcs[0] > 2 or (arcs[0] < 2 and arcs[1] >= 40):
        return None
    return b''.join(ref_arc(x) for x in [arcs[0] * 40 + arcs[1]] + arcs[2:])


def ref_dotted(con):
    if not con or con[-1] >= 128:
        return None
    vals, v, start = [], 0, True
    for b in con:
        if start and b == 128:
            return None
        v = v * 128 + b % 128
        start = b < 128
        if start:
            vals.append(v)
            v = 0
    f = min(vals[0] // 40, 2)
    return '.'.join(str(x) for x in [f, vals[0] - 40 * f] + vals[1:])


def chk_text(text):
    want = ref_contents(text)
    for how in (0, 1, 2):
        o = core.ObjectIdentifier('1.2.840') if how else None
        try:
            if how == 0:
                o = core.ObjectIdentifier(text)
            else:
                if how == 2:
                    o = core.ObjectIdentifier.load(o.dump())
                o.dotted, o.native, o.dump()
                o.set(text)
        except ValueError as e:
            if want is not None:
                return 'ObjectIdentifier(%r) refused: %r' % (text, e)
            if how and (o.dotted, o.native, o.dump()) != ('1.2.840',) * 2 + (core.ObjectIdentifier('1.2.840').dump(),):
                return 'a refused set(%r) changed the value to %r' % (text, o.native)
            continue
        if want is None:
            return 'ObjectIdentifier accepted %r as %s' % (text, o.contents.hex())
        d = x690.emit(0, 0, 6, want)
        if o.dump() != d:
            return 'ObjectIdentifier(%r) encodes as %s, not %s' % (text, o.dump().hex(), d.hex())
        if o.dotted != text or o.native != text or str(o.__unicode__()) != text:
            return 'after set(%r): dotted %r native %r' % (text, o.dotted, o.native)
        l = core.ObjectIdentifier.load(d, strict=True)
        if l.dotted != text or l.native != text or l.dump(force=True) != d:
            return '%r loads back as %r' % (text, l.native)


def chk_contents(con):
    want = ref_dotted(con)
    d = x690.emit(0, 0, 6, con)
    try:
        got = core.ObjectIdentifier.load(d).dotted
    except ValueError:
        got = None
    if got != want:
        return 'contents %s read as %r, denote %r' % (con.hex(), got, want)
    if want is not None and core.ObjectIdentifier(want).contents != con:
        return '%r does not encode back to %s' % (want, con.hex())


class OidCases(Bounded):
    name = 'ObjectIdentifier text and contents'
    rule = 'valid, boundary, malformed texts; contents up to 2 octets exhaustively, random longer; distinct by input'
    seconds = 8

    BAD = ['', '1', '1.', '.1', '1..2', 'x', '1.2.x', '1.2.-5', '-1.2', '1.-2', '3.1', '1.40', '0.40', '1.2.', ' 1.2', '1.2 ',
           '1. 2', '+1.2', '1.+2', '01.2', '1.02', '1.2.03', '1_0.2', '1.1_0', '1.2\n', '1,2', '1.2.3.', '2', '2.', '10.1',
           '1.\u0661', '1.\u00b2', '1.2.840.x', 'rsa', '0x1.2', '1.2e3', '1.2.3\x00']

    def cases(self, rng, tier):
        for t in self.BAD:
            yield 'text', t
        for a in range(4):
            for b in (0, 1, 38, 39, 40, 41, 47, 48, 79, 80, 119, 127, 128, 175, 176, 999, 16383, 16384, 2 ** 64):
                yield 'text', '%d.%d' % (a, b)
                for x in (0, 1, 127, 128, 129, 16383, 16384, 2097151, 2097152, 2 ** 28, 2 ** 32 - 1, 2 ** 63, 2 ** 200):
                    yield 'text', '%d.%d.%d' % (a, b, x)
        for a in range(256):
            yield 'con', bytes([a])
            for b in range(256):
                yield 'con', bytes([a, b])
        for a in (0, 1, 127, 128, 129, 255):
            for b in (0, 1, 127, 128, 129, 255):
                for d in (0, 1, 127, 128, 255):
                    yield 'con', bytes([42, a, b, d])
        while True:
            arcs = [rng.randrange(3), rng.randrange(40)] + [abs(gen.rint(rng)) for _ in range(rng.randrange(8))]
            yield 'text', '.'.join(map(str, arcs))
            yield 'con', gen.rbytes(rng, rng.randrange(1, 9))
            t = '.'.join(map(str, arcs))
            i = rng.randrange(len(t) + 1)
            yield 'text', t[:i] + rng.choice(['', '.', '-', ' ', 'a', '0', '+', '_']) + t[i:]

    def oracle(self, case):
        return chk_text(case[1]) if case[0] == 'text' else chk_contents(case[1])


def oid_classes():
    from pyvc.repo import all_classes
    return [c for c in all_classes() if issubclass(c, core.ObjectIdentifier) and c._map and
            c.__module__.startswith('asn1crypto')]


class MapTables(Bounded):
    name = 'every mapped object identifier class of the library'
    rule = 'all classes with _map, all entries, in both directions: complete enumeration'
    exhaustive = True

    def cases(self, rng, tier):
        for cls in oid_classes():
            for d in sorted(cls._map):
                yield cls, d

    def oracle(self, case):
        cls, dotted = case
        name = cls._map[dotted]
        names = [k for k, v in cls._map.items() if v == name]
        con = ref_contents(dotted)
        if con is None:
            return '%s maps %r, which is not an OID' % (cls.__name__, dotted)
        d = x690.emit(0, 0, 6, con)
        if cls.unmap(name) not in names:
            return '%s.unmap(%r) is %r' % (cls.__name__, name, cls.unmap(name))
        alias = cls.unmap(name) != dotted    # a legacy identifier reads as the name of the current one
        for v in (dotted,) if alias else (name, dotted):
            o = cls(v)
            if o.dump() != d or o.native != name or o.dotted != dotted:
                return '%s(%r): %s %r %r' % (cls.__name__, v, o.dump().hex(), o.native, o.dotted)
        o = cls.load(d)
        if o.native != name or o.dotted != dotted:
            return '%s.load: %r %r' % (cls.__name__, o.native, o.dotted)
        if cls.map(dotted) != name or cls.unmap(dotted) != dotted:
            return '%s map/unmap of %s' % (cls.__name__, dotted)
        if alias:
            return None
        o = cls('2.999.1')
        o.dotted, o.native, o.dump()
        o.set(name)
        if (o.native, o.dotted, o.dump()) != (name, dotted, d):
            return '%s after set(%r): %r %r' % (cls.__name__, name, o.native, o.dotted)
        o.set('2.999.2')
        if (o.native, o.dotted) != ('2.999.2', '2.999.2'):
            return '%s after set: %r %r' % (cls.__name__, o.native, o.dotted)
        for bad in ('no such name', '1.2.x', ''):
            for f in (cls, cls.unmap):
                try:
                    f(bad)
                except ValueError:
                    continue
                return '%s: %r accepted' % (cls.__name__, bad)


UNITS = [SetFewArcs(1), SetFewArcs(2), SetManyArcs, Dotted]
BOUNDED = [OidCases, MapTables]
