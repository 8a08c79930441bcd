"""Input generators for the bounded runtime contracts (deterministic from the seed)."""
from oracle import x690

BOUNDARY_INTS = sorted(set(s * (2 ** k + d) for k in (0, 1, 6, 7, 8, 9, 14, 15, 16, 21, 23, 24, 28, 31, 32, 35, 63, 64, 65, 127,
                       128, 255, 256, 511, 512, 521, 1023, 1024, 2048) for d in (-2, -1, 0, 1, 2) for s in (1, -1)))
LENGTHS = [0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 65534, 65535, 65536, 65537]
TAGS = [0, 1, 2, 15, 16, 30, 31, 32, 126, 127, 128, 129, 255, 256, 16383, 16384, 16385, 2097151, 2097152, 2 ** 28,
        2 ** 32 - 1, 2 ** 63, 2 ** 64 + 5, 2 ** 70]


def rint(rng, bits=None):
    r = rng.random()
    if r < 0.4:
        return rng.choice(BOUNDARY_INTS)
    b = bits or rng.choice([4, 8, 12, 16, 24, 31, 40, 64, 100, 256, 600])
    return rng.getrandbits(b) * rng.choice([1, -1])


def rbytes(rng, n=None, hi=12):
    if n is None:
        n = rng.randrange(hi + 1)
    r = rng.random()
    if r < 0.15:
        return b'\x00' * n
    if r < 0.25:
        return b'\xff' * n
    if r < 0.35:
        return bytes(rng.choice((0, 0x80, 0xff, 1, 0x7f)) for _ in range(n))
    return bytes(rng.getrandbits(8) for _ in range(n))


def rtag(rng):
    return rng.choice(TAGS) if rng.random() < 0.5 else rng.choice([rng.randrange(31), rng.randrange(200),
                                                                  rng.getrandbits(rng.choice([8, 16, 33, 70]))])


def ber_len(rng, n):
    """some valid definite-length octets (possibly non-minimal)"""
    if n < 128 and rng.random() < 0.6:
        return bytes([n])
    b = n.to_bytes(max(1, (n.bit_length() + 7) // 8), 'big')
    b = b'\x00' * rng.choice([0, 0, 0, 1, 3]) + b
    return bytes([0x80 | len(b)]) + b


def rtlv(rng, depth=3, indef=0.3):
    """a random valid BER value"""
    cls, tag = rng.randrange(4), rtag(rng) if rng.random() < 0.3 else rng.randrange(1, 31)
    if cls == 0 and tag == 0:
        tag = 4
    constructed = depth > 0 and rng.random() < 0.6
    if not constructed:
        c = rbytes(rng, hi=6) if rng.random() < .95 else rbytes(rng, rng.choice(LENGTHS[:12]))
        return x690.identifier(cls, 0, tag) + ber_len(rng, len(c)) + c
    kids = b''.join(rtlv(rng, depth - 1, indef) for _ in range(rng.randrange(4)))
    if rng.random() < indef:
        return x690.identifier(cls, 1, tag) + b'\x80' + kids + b'\x00\x00'
    return x690.identifier(cls, 1, tag) + ber_len(rng, len(kids)) + kids


def nested_indef(rng, d, inner=None):
    """d levels of indefinite length, possibly with definite siblings and zero bytes inside"""
    v = inner if inner is not None else rng.choice([b'', b'\x04\x02\x00\x00', b'\x05\x00', b'\x04\x04\x00\x00\x00\x00'])
    for _ in range(d):
        pre = rng.choice([b'', b'\x04\x02\x00\x00', b'\x30\x00', b'\x30\x04\x04\x02\x00\x00'])
        post = rng.choice([b'', b'\x05\x00', b'\x30\x80\x00\x00'])
        v = rng.choice([b'\x30', b'\x24', b'\xa0', b'\x7f\x1f']) + b'\x80' + pre + v + post + b'\x00\x00'
    return v


def mutate(rng, data):
    d = bytearray(data)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        if r < 0.3 and d:
            d[rng.randrange(len(d))] = rng.choice([0, 0x80, 0xff, 0x1f, 0x7f, 0x81, 0x30, rng.getrandbits(8)])
        elif r < 0.5 and d:
            del d[rng.randrange(len(d)):]
        elif r < 0.65 and d:
            i = rng.randrange(len(d))
            del d[i:i + rng.randrange(1, 4)]
        elif r < 0.8:
            i = rng.randrange(len(d) + 1)
            d[i:i] = rbytes(rng, hi=4)
        elif r < 0.9:
            d += rbytes(rng, hi=4)
        elif d:
            i = rng.randrange(len(d))
            d[i] ^= 1 << rng.randrange(8)
    return bytes(d)
