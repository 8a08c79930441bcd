"""Certificates and other structures with extensions, written byte by byte from a description (used by C20 and C23)."""
from oracle import der

SHA256_RSA = der.seq(der.oid('1.2.840.113549.1.1.11'), der.NULL)
SPKI = der.seq(der.seq(der.oid('1.2.840.113549.1.1.1'), der.NULL), der.bits(der.seq(der.integer(0xC5), der.integer(3))))
CN, ORG = '2.5.4.3', '2.5.4.10'
SAN = '2.5.29.17'


def utctime(s='200101000000Z'):
    return der.tlv(0x17, s.encode())


def name(attrs):
    """attrs: list of (oid, text or DER)"""
    return der.seq(*[der.set_(der.seq(der.oid(o), v if isinstance(v, bytes) else der.utf8(v))) for o, v in attrs])


def ext(oid, value, critical=None):
    """critical: None (absent), True or False (written out)"""
    return der.seq(der.oid(oid), b'' if critical is None else der.boolean(critical), der.octets(value))


def general(kind, v):
    tag = {'email': 0x81, 'dns': 0x82, 'dir': 0xa4, 'uri': 0x86, 'ip': 0x87, 'rid': 0x88}[kind]
    return der.tlv(tag, v)


def tbs(subject, issuer, exts, serial=1, version=2, spki=SPKI):
    return der.seq(b'' if version is None else der.tlv(0xa0, der.integer(version)), der.integer(serial), SHA256_RSA, issuer,
                   der.seq(utctime(), utctime('300101000000Z')), subject, spki,
                   b'' if exts is None else der.tlv(0xa3, der.seq(*exts)))


def certificate(*a, **k):
    return der.seq(tbs(*a, **k), SHA256_RSA, der.bits(b'\x01\x02'))
