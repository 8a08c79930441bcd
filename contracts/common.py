import z3
from pyvc.values import *  # noqa
from pyvc.values import simp, addz
from pyvc.solver import bound, ARR, V128, U256
from pyvc.interp import PyRaise, MISSING
from pyvc.unit import Unit, Bounded, outcome
from contracts import gen
from pyvc import theory

import asn1crypto
from asn1crypto import parser, util, core, x509, keys, algos, pem, crl, ocsp, cms, csr, _inet, _int


def Z(v):
    """value -> z3 expression"""
    if isinstance(v, SBool):
        return v.z
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return bound(zi(v))


def is_int(v):
    return isinstance(v, (SInt, int)) and not isinstance(v, (bool, SBool)) or isinstance(v, (bool, SBool))


def is_bytes(v):
    return isinstance(v, (SBytes, bytes))


def beq(it, a, b):
    """z3 formula: byte strings equal"""
    if not (is_bytes(a) and is_bytes(b)):
        return z3.BoolVal(False)
    r = it.models.bytes_eq(it, a, b)
    return Z(r)


def concat(*xs):
    atoms = ()
    for x in xs:
        atoms += tuple(atoms_of(x))
    return mkbytes(atoms)


def slc(it, v, a=None, b=None):
    w = lambda x: x if x is None or isinstance(x, int) else (x if isinstance(x, SInt) else SInt(x))
    return it.models.slice_bytes(it, v, slice(w(a), w(b))) if is_sym(v) or is_sym(w(a)) or is_sym(w(b)) else v[a:b]


def at(it, v, i):
    return bound(zi(it.getitem(v, i if isinstance(i, (int, SInt)) else SInt(i))))


def names_bound(f, args, kwargs):
    """call arguments by parameter name (None when the signature does not fit)"""
    import inspect
    try:
        ba = inspect.signature(f).bind(*args, **kwargs)
        ba.apply_defaults()
        return dict(ba.arguments)
    except TypeError:
        return None


def calls_self(it, f):
    return (f.__module__ + '.' + f.__qualname__) in it.stack


def getp(it, o, name):
    """reading an attribute or property: ('ret', value) or ('exc', exception)"""
    try:
        return 'ret', it.getattr(o, name)
    except PyRaise as e:
        return 'exc', e.exc


def meth(it, o, name, *a, **k):
    try:
        return 'ret', it.call(it.getattr(o, name), list(a), k)
    except PyRaise as e:
        return 'exc', e.exc


def getk(it, o, k):
    try:
        return 'ret', it.getitem(o, k)
    except PyRaise as e:
        return 'exc', e.exc
