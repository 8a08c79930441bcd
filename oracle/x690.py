"""Independent reference reading of X.690 headers (no code shared with the library)."""


class Bad(Exception):
    pass


def identifier(cls, method, tag):
    return emit(cls, method, tag, b'')[:-1]


def emit(cls, method, tag, contents):
    first = cls * 64 + method * 32
    if tag < 31:
        out = [first + tag]
    else:
        groups = []
        t = tag
        while t:
            groups.append(t % 128)
            t //= 128
        groups.reverse()
        out = [first + 31] + [g + 128 for g in groups[:-1]] + [groups[-1]]
    n = len(contents)
    if n < 128:
        out.append(n)
    else:
        ln = []
        while n:
            ln.append(n % 256)
            n //= 256
        ln.reverse()
        out.append(128 + len(ln))
        out += ln
    return bytes(out) + contents


def header(data, pos):
    """(class, method, tag, header_end, length or None)"""
    n = len(data)
    if pos >= n:
        raise Bad('no identifier octet')
    b = data[pos]
    cls, method, tag = b >> 6, (b >> 5) & 1, b & 31
    pos += 1
    if tag == 31:
        tag = 0
        start = pos
        while True:
            if pos >= n:
                raise Bad('truncated tag')
            c = data[pos]
            if pos == start and c == 0x80:
                raise Bad('non-minimal tag')
            pos += 1
            tag = tag * 128 + (c & 127)
            if c < 128:
                break
        if tag < 31:
            raise Bad('non-minimal tag')
    if pos >= n:
        raise Bad('no length octet')
    l0 = data[pos]
    pos += 1
    if l0 < 128:
        return cls, method, tag, pos, l0
    if l0 == 128:
        if not method:
            raise Bad('indefinite primitive')
        return cls, method, tag, pos, None
    k = l0 - 128
    if pos + k > n:
        raise Bad('truncated length')
    v = 0
    for c in data[pos:pos + k]:
        v = v * 256 + c
    return cls, method, tag, pos + k, v


def value_end(data, pos, depth=0, limit=10):
    """end of the value at pos"""
    if depth > limit:
        raise Bad('too deep')
    cls, method, tag, h, length = header(data, pos)
    if length is not None:
        if h + length > len(data):
            raise Bad('truncated contents')
        return h + length
    p = h
    while data[p:p + 2] != b'\x00\x00':
        p = value_end(data, p, depth + 1, limit)
    return p + 2


def parse(data, limit=10):
    """(class, method, tag, header, contents, trailer), consumed"""
    cls, method, tag, h, length = header(data, 0)
    end = value_end(data, 0, 0, limit)
    tr = b'' if length is not None else b'\x00\x00'
    return (cls, method, tag, data[:h], data[h:end - len(tr)], tr), end


def indefinite_depth(data):
    """deepest nesting of values inside indefinite-length values the scan visits (0 for none)"""
    best = [0]

    def rec(pos, d):
        best[0] = max(best[0], d)
        if d > 60:
            raise Bad('deep')
        cls, method, tag, h, length = header(data, pos)
        if length is not None:
            if h + length > len(data):
                raise Bad('truncated')
            return h + length
        p = h
        while data[p:p + 2] != b'\x00\x00':
            p = rec(p, d + 1)
        return p + 2
    try:
        rec(0, 0)
    except Bad:
        pass
    return best[0]
