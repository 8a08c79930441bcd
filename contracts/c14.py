"""C14: tagging wraps and unwraps exactly, and a value with the wrong tag is refused."""
from .common import *  # noqa
from . import structs
from .structs import attempt
from oracle import schema, x690
from .symstruct import *  # noqa


class Build(structs.Build):
    pass


class BoundedDecode(structs.Decode):
    what = ['class', 'tag', 'tag', 'method', 'wrap', 'unwrap', 'other']
    name = 'altered identifiers against the reference decoder'


class Choices(structs.Decode):
    name = 'choices against the reference decoder'
    kinds = ('choice',)
    what = ['class', 'tag', 'tag', 'method', 'wrap', 'unwrap', 'other', 'empty']
    seconds = 15


def with_tags(S, param):
    return (S[0], S[1][:2] + (param,)) + S[2:]


def chk_retag(case):
    S, v, params = case
    plainS = schema.bare(S)
    o = schema.build(S, v)
    e = schema.enc(S, v)
    cur = o
    for p in params:
        T = with_tags(S, p)
        if p is None:
            r, n = attempt(cur.untag)
            what = 'untag()'
        else:
            kw = schema.form_tag(p)
            if 'tag_type' in kw:
                r, n = attempt(lambda: cur.retag(kw['tag_type'], kw['tag']))
            else:
                r, n = attempt(lambda: cur.retag(kw))
            what = 'retag(%r)' % (kw,)
        if r != 'ret':
            return '%s fails: %s' % (what, n)
        if n.__class__ is not o.__class__:
            return '%s changes the class' % what
        want = schema.enc(T, v)
        if n.dump() != want:
            return '%s encodes as %s and not %s' % (what, n.dump().hex(), want.hex())
        w = schema.walk(T, n)
        if not schema.same(T, w, v):
            return '%s changes the value to %r' % (what, w)
        if o.dump() != e or cur.dump() != (e if cur is o else last):
            return '%s changes the original' % what
        r, x = attempt(lambda: schema.load(T, want))
        if r != 'ret' or not schema.same(T, schema.walk(T, x), v):
            return '%s: %s does not read back' % (what, want.hex())
        if S[1] != T[1]:
            for U, d in ((S, want), (T, e)):
                try:
                    schema.dec(U, d)
                except x690.Bad:
                    r, x = attempt(lambda: schema.walk(U, schema.load(U, d)))
                    if r == 'ret':
                        return '%s is read under the other tagging as %r' % (d.hex(), x)
                    if r == 'escaped':
                        return '%s under the other tagging: %s' % (d.hex(), x)
                except schema.Unclear:
                    pass
        # the value as a field of a sequence is given the tags of the declaration
        Q = ('seq', schema.NOTAGS, (('f', T, None),))
        if S[0] != 'any':
            q = schema.cls_of(Q)({'f': n})
            q2 = schema.cls_of(Q)({'f': o})
            qe = schema.enc(Q, (('f', v),))
            if q.dump() != qe or q2.dump() != qe:
                return 'as a field tagged %r it encodes as %s / %s and not %s' % (p, q.dump().hex(), q2.dump().hex(), qe.hex())
        cur, last = n, want


class Retag(Bounded):
    name = 'retagging chains'
    rule = 'random values given up to four taggings after each other; distinct by declaration, value and taggings'
    seconds = 20

    def cases(self, rng, tier):
        while True:
            g, S = structs.decl(rng, None, rng.choice([0, 0, 1]))
            for _ in range(2):
                ps = [g.tags(S[0], .75)[2] for _ in range(rng.randrange(1, 5))]
                ps = [p for p in ps if p is None or p[0] == 'e' or S[0] not in ('choice', 'any')]
                if S[1][1] and any(p and p[0] == 'i' for p in ps):
                    continue
                yield S, g.value(S), tuple(ps)

    def oracle(self, case):
        return chk_retag(case)


TAGS = [
    ('no tag', N),
    ('an implicit context tag', imp(0)),
    ('an implicit application tag', imp(30, 1)),
    ('an implicit private tag', imp(31, 3)),
    ('an implicit tag of two octets', imp(128)),
    ('an explicit tag', exp(0)),
    ('an explicit tag of two octets', exp((1, 200))),
    ('two explicit tags', exp((1, 3), (2, 1))),
    ('three explicit tags', exp((3, 31), (2, 1), (1, 0))),
    ('a class-level implicit tag', ((1, 5), (), None)),
    ('a class-level explicit tag', (None, ((1, 5),), None)),
    ('a class-level explicit tag inside another', (None, ((1, 5),), ('e', ((2, 0),), 'num'))),
    ('a class-level implicit tag inside an explicit one', ((1, 5), (), ('e', ((2, 0),), 'num'))),
    ('a class-level implicit tag under another', ((1, 5), (), ('i', 2, 7, 'num'))),
    ('a class-level implicit tag inside a class-level explicit one', ((3, 40), ((2, 2),), None)),
]
ABC = (('p', ('octets', imp(1))), ('q', OCT), ('r', ('octets', imp(1, 1))), ('s', ('octets', exp(0))))
CHOICES = [
    ('alternatives of every class', ('choice', N, ABC)),
    ('an explicitly tagged choice', ('choice', exp(3), ABC[:3])),
    ('a choice in a choice', ('choice', N, (('m', ('choice', N, ABC[:2])), ('n', ('octets', imp(2)))))),
    ('a tagged choice in a choice', ('choice', N, (('m', ('choice', exp(1), ABC[:2])), ('n', ('octets', imp(0)))))),
    ('a choice of structures', ('choice', N, (('m', seq(('a', OCT))), ('n', ('seq', imp(0), (('a', OCT, None),)))))),
]
FORMS = ['explicit', 'implicit', 'explicit twice', 'none']
CLASSNAMES = {0: 'universal', 1: 'application', 2: 'context', 3: 'private'}


class AnyNumber(Unit):
    """tags of every class and every number, implicit, explicit or twice explicit: what they encode as, what is accepted under
    them, and what replacing or removing them does"""
    targets = ('asn1crypto.core.Asn1Value.__init__', 'asn1crypto.core.Asn1Value.dump', 'asn1crypto.core.Asn1Value.retag',
               'asn1crypto.core.Asn1Value.untag', 'asn1crypto.core._parse_build', 'asn1crypto.core._build',
               'asn1crypto.core._fix_tagging')
    assumptions = ('contracts of parser._dump_header (C01) and parser._parse (C02)',)
    unroll = 40
    time_s = 240

    def __init__(self, form, what):
        self.form, self.what = form, what
        self.name = '%s, %s: any class and tag number' % (form, what)
        self.covers = ('accepted', 'refused') if what == 'decode' else ('done',)

    def params(self, it, form, prefix):
        """the tagging, as given to the library, and as the list of identifiers outside the value's own, inmost first"""
        c = it.ctx
        ts = []
        for i in range({'explicit': 1, 'implicit': 1, 'explicit twice': 2, 'none': 0}[form]):
            k = c.choose(4)
            c.input('%sclass%d' % (prefix, i), k)
            ts.append((k, c.in_int('%stag%d' % (prefix, i), 0)))
        return self.kwargs(form, ts), ts

    def kwargs(self, form, ts):
        names = [(CLASSNAMES[k], t) for k, t in ts]
        if form == 'explicit':
            return {'explicit': names[0][1] if ts[0][0] == 2 else names[0]}
        if form == 'implicit':
            return {'implicit': names[0][1] if ts[0][0] == 2 else names[0]}
        if form == 'explicit twice':
            return {'explicit': ((2, ts[0][1]) if ts[0][0] == 2 else names[0], names[1])}
        return {}

    def dump_is(self, it, o, con, form, ts, what):
        """the object encodes with exactly these identifiers around the contents"""
        c = it.ctx
        calls = []

        def dump_header(it_, f, args, kwargs):
            a = names_bound(f, args, kwargs)
            if a is None:
                return MISSING
            h = c.fresh_bytes('header', 2)
            calls.append((a['class_'], a['method'], a['tag'], a['contents'], h))
            return h
        it.contracts = dict(it.contracts)
        it.contracts['asn1crypto.parser._dump_header'] = dump_header
        k, d = meth(it, o, 'dump')
        c.prove(what + ' encodes', k == 'ret' and is_bytes(d))
        if k != 'ret' or not is_bytes(d):
            return None
        heads = [(ts[0][0], 0, ts[0][1])] if form == 'implicit' else [(0, 0, 4)] + [(k, 1, t) for k, t in ts]
        c.prove(what + ': one header for each tag', len(calls) == len(heads))
        want = con
        for h, x in zip(heads, calls):
            c.prove(what + ': its class, method and number', z3.And(Z(x[0]) == Z(h[0]), Z(x[1]) == h[1], Z(x[2]) == Z(h[2])))
            c.prove(what + ': around what is inside it', is_bytes(x[3]) and beq(it, x[3], want))
            want = concat(x[4], want)
        c.prove(what + ': nothing else is encoded', beq(it, d, want))
        return d

    def run(self, it):
        c = it.ctx
        p, ts = self.params(it, self.form, '')
        if self.what == 'decode':
            return self.decode(it, p, ts)
        con = c.in_bytes('contents', 0)
        o = it.call(core.OctetString, [con], p)
        first = self.dump_is(it, o, con, self.form, ts, 'the value')
        if self.what != 'encode':
            form = FORMS[c.choose(len(FORMS))]
            c.input('form', form)
            q, us = self.params(it, form, 'new ')
            if form == 'none' and c.choose(2):
                c.input('untag', True)
                k, n = meth(it, o, 'untag')
            else:
                k, n = meth(it, o, 'retag', q)
            c.prove('the tagging is replaced', k == 'ret' and type(n) is core.OctetString and n is not o)
            if k == 'ret':
                self.dump_is(it, n, con, form, us, 'the value with another tagging')
                k, x = getp(it, n, 'native')
                c.prove('the value is the same', k == 'ret' and is_bytes(x) and beq(it, x, con))
                k, d = meth(it, o, 'dump')
                c.prove('the original is the same', k == 'ret' and first is not None and is_bytes(d) and beq(it, d, first))
        c.cover('done')

    def decode(self, it, p, ts):
        c = it.ctx
        w = Wire(it)
        data = c.in_bytes('data', 1)
        k, o = outcome(it, core.OctetString.load, data, strict=True, **p)
        r = Ref(w)
        try:
            x = r.only(data)
            for t in [(a, Z(b)) for a, b in reversed(ts)] if self.form != 'implicit' else []:
                if not (r.is_id(x, t) and c.branch(Z(x.method) == 1)):
                    raise schema.Bad('explicit')
                x = r.only(x.contents)
            if not (r.is_id(x, (ts[0][0], Z(ts[0][1])) if self.form == 'implicit' else (0, 4)) and c.branch(Z(x.method) == 0)):
                raise schema.Bad('tag')
        except schema.Bad:
            c.cover('refused')
            c.prove('refused with ValueError', k == 'exc' and isinstance(o, ValueError))
            return
        c.cover('accepted')
        c.prove('accepted', k == 'ret' and type(o) is core.OctetString)
        if k == 'ret':
            k, n = getp(it, o, 'native')
            c.prove('the contents', k == 'ret' and is_bytes(n) and beq(it, n, x.contents))
            k, d = meth(it, o, 'dump')
            c.prove('it encodes to the bytes it was read from', k == 'ret' and is_bytes(d) and beq(it, d, data))

    def oracle(self, i):
        def tags(form, prefix):
            n = {'explicit': 1, 'implicit': 1, 'explicit twice': 2, 'none': 0}[form]
            ts = [(i['%sclass%d' % (prefix, j)], i['%stag%d' % (prefix, j)]) for j in range(n)]
            t = None if not ts else ('i', ts[0][0], ts[0][1], 'num') if form == 'implicit' else ('e', tuple(ts))
            return ts, (None, (), t)
        ts, t = tags(self.form, '')
        S = ('octets', t)
        if self.what == 'decode':
            try:
                want = schema.dec(S, i['data'])
            except x690.Bad:
                want = None
            except schema.Unclear:
                return None
            r, o = attempt(lambda: core.OctetString.load(i['data'], strict=True, **self.kwargs(self.form, ts)))
            if (r == 'ret') != (want is not None):
                return '%s under the tagging %r: %s' % (i['data'].hex(), t, 'refused' if r != 'ret' else 'accepted')
            return None
        e = schema.enc(S, i['contents'])
        o = core.OctetString(i['contents'], **self.kwargs(self.form, ts))
        if o.dump() != e:
            return 'tagged %r encodes as %s and not %s' % (t, o.dump().hex(), e.hex())
        if 'form' in i:
            us, u = tags(i['form'], 'new ')
            n = o.untag() if i.get('untag') else o.retag(self.kwargs(i['form'], us))
            e2 = schema.enc(('octets', u), i['contents'])
            if n.dump() != e2 or o.dump() != e or n.native != i['contents']:
                return 'retagged %r encodes as %s and not %s' % (u, n.dump().hex(), e2.hex())


UNITS = []
for form in FORMS:
    UNITS += [AnyNumber(form, x) for x in ('encode', 'decode', 'retag')]
for what, t in TAGS:
    UNITS.append(Decode('decoding under ' + what, ('octets', t)))
    UNITS.append(Encode('encoding under ' + what, ('octets', t)))
    if what in ('an implicit private tag', 'two explicit tags', 'a class-level implicit tag inside an explicit one'):
        UNITS.append(Decode('decoding a structure under ' + what, ('seq', t, (('a', OCT, 'optional'),))))
        UNITS.append(Encode('encoding a structure under ' + what, ('seq', t, (('a', OCT, 'optional'),))))
for what, S in CHOICES:
    UNITS.append(Decode('decoding ' + what, S))
    UNITS.append(Encode('encoding ' + what, S))
UNITS.append(Decode('decoding a field of any type', seq(('a', ('any', N)))))
BOUNDED = [Build, BoundedDecode, Choices, Retag]
