"""Imports the code under test from the current working tree of the repository."""
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
sys.setrecursionlimit(20000)
import asn1crypto  # noqa
import asn1crypto.core, asn1crypto.x509, asn1crypto.cms, asn1crypto.crl, asn1crypto.ocsp  # noqa
import asn1crypto.keys, asn1crypto.algos, asn1crypto.pem, asn1crypto.util, asn1crypto.parser  # noqa
import asn1crypto.csr, asn1crypto.tsp, asn1crypto.pkcs12, asn1crypto.pdf, asn1crypto._inet, asn1crypto._iri  # noqa
import asn1crypto._int, asn1crypto._errors, asn1crypto._types, asn1crypto._teletex_codec  # noqa

assert os.path.realpath(asn1crypto.__file__).startswith(os.path.realpath(REPO) + os.sep), asn1crypto.__file__
from . import interp
interp.REPO_PREFIX = os.path.dirname(asn1crypto.__file__) + os.sep


def all_classes():
    out, todo = [], [asn1crypto.core.Asn1Value]
    while todo:
        c = todo.pop()
        for s in c.__subclasses__():
            if s not in out:
                out.append(s)
                todo.append(s)
    return sorted(out, key=lambda c: (c.__module__, c.__qualname__))


# class-level caches (_reverse_map, _field_map, ...) are filled natively once, so that exploration of symbolic
# paths never leaves them half written
for _c in all_classes():
    try:
        _c()
    except Exception:
        pass
