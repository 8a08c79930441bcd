"""String preparation of RFC 4518 (sections 2.1 to 2.6.1), written from the RFC.  Case folding (RFC 3454 B.2) and the tables of
prohibited code points come from the stringprep module of Python, Unicode normalization from unicodedata: trusted."""
import stringprep, unicodedata


def span(*rs):
    out = set()
    for r in rs:
        a, b = r if isinstance(r, tuple) else (r, r)
        out |= set(range(a, b + 1))
    return out


# "FF00-FE0F" in the text of the RFC is the variation selectors FE00-FE0F (RFC errata)
NOTHING = span(0xad, 0x1806, 0x34f, (0x180b, 0x180d), (0xfe00, 0xfe0f), 0xfffc,
               (0x0, 0x8), (0xe, 0x1f), (0x7f, 0x84), (0x86, 0x9f), 0x6dd, 0x70f, 0x180e, (0x200c, 0x200f), (0x202a, 0x202e),
               (0x2060, 0x2063), (0x206a, 0x206f), 0xfeff, (0xfff9, 0xfffb), (0x1d173, 0x1d17a), 0xe0001, (0xe0020, 0xe007f), 0x200b)
SPACE = span((0x9, 0xd), 0x85, 0x20, 0xa0, 0x1680, (0x2000, 0x200a), (0x2028, 0x2029), 0x202f, 0x205f, 0x3000)


class Prohibited(Exception):
    pass


def mapped(s):
    out = []
    for ch in s:
        o = ord(ch)
        if o in NOTHING:
            continue
        out.append(' ' if o in SPACE else stringprep.map_table_b2(ch))
    return ''.join(out)


def prohibited(ch):
    return (stringprep.in_table_a1(ch) or stringprep.in_table_c8(ch) or stringprep.in_table_c3(ch) or stringprep.in_table_c4(ch)
            or stringprep.in_table_c5(ch) or ch == '\ufffd')


def bidi_ok(s):
    """RFC 3454 section 6, which the library applies as well"""
    r = [stringprep.in_table_d1(c) for c in s]
    if not any(r):
        return True
    return not any(stringprep.in_table_d2(c) for c in s) and r[0] and r[-1]


def prep(s):
    s = unicodedata.normalize('NFKC', mapped(s))
    if any(prohibited(c) for c in s) or not bidi_ok(s):
        raise Prohibited(s)
    # 2.6.1: one space at the start and the end, two between words
    words = [w for w in s.split(' ') if w]
    return ' ' + '  '.join(words) + ' '
