"""Small DER writer used by oracles; independent of /repo."""


def tlv(tag, *contents):
    c = b''.join(contents)
    n = len(c)
    if n < 128:
        ln = bytes([n])
    else:
        b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
        ln = bytes([0x80 | len(b)]) + b
    return bytes([tag]) + ln + c


def seq(*c):
    return tlv(0x30, *c)


def set_(*c):
    return tlv(0x31, *sorted(c))


def oid(text):
    p = [int(x) for x in text.split('.')]
    out = b''
    for a in [p[0] * 40 + p[1]] + p[2:]:
        s = bytes([a & 127])
        a >>= 7
        while a:
            s = bytes([128 | a & 127]) + s
            a >>= 7
        out += s
    return tlv(6, out)


def integer(v):
    n = (v + (v < 0)).bit_length() // 8 + 1
    return tlv(2, v.to_bytes(n, 'big', signed=True))


def octets(b):
    return tlv(4, b)


def bits(b, unused=0):
    return tlv(3, bytes([unused]) + b)


def boolean(b):
    return tlv(1, b'\xff' if b else b'\0')


def utf8(s):
    return tlv(12, s.encode('utf-8'))


def printable(s):
    return tlv(19, s.encode('ascii'))


def ia5(s):
    return tlv(22, s.encode('ascii'))


NULL = b'\x05\0'
