"""C12: a changed structure always encodes its current contents.

Units run every history of a fixed number of steps over symbolic contents through the real code (symhist); the bounded part draws
longer histories over random declarations."""
from .common import *  # noqa
from . import structs
from .symhist import *  # noqa


class Deep(structs.Histories):
    name = 'histories on structures nested three deep'
    depth = 3
    steps = 14
    seconds = 20


WORKS = seq(('a', OCT), ('b', ('octets', imp(0)), 'optional'), ('c', OCT, ('default', b'abc')))
NESTED = seq(('a', OCT), ('s', seq(('x', ('octets', imp(1))), ('y', OCT, 'optional')), 'optional'))
LIST = seq(('l', ('seqof', N, OCT)))
OF = ('seqof', N, seq(('x', OCT)))
CHOSEN = seq(('k', ('choice', N, (('p', OCT), ('q', seq(('x', OCT)))))))
TAGGED = seq(('t', seq(('x', OCT), tags=exp(0)), 'optional'), ('u', ('octets', exp((1, 3), (2, 1)))))
SETS = set_(('b', ('octets', imp(1)), 'optional'), ('a', OCT))
DEEP = seq(('s', seq(('r', seq(('x', OCT, 'optional'))))))

UNITS = []
for what, S in (('required, optional and default fields', WORKS), ('a nested sequence', NESTED), ('a list', LIST),
                ('a sequence of sequences', OF), ('a choice', CHOSEN), ('explicit tags', TAGGED), ('a set', SETS),
                ('three levels', DEEP)):
    UNITS.append(History(what, S, (WRITES,)))
    UNITS.append(History(what, S, (READS, WRITES), thorough=S in (WORKS, NESTED, OF)))
    UNITS.append(History(what, S, (WRITES, WRITES), thorough=S in (NESTED, OF, DEEP)))
    UNITS.append(History(what, S, (WRITES, READS, WRITES), thorough=True))
BOUNDED = [structs.Histories, Deep]
LEVEL = 'other'
