import itertools
from common import REP

def byte_strings(rng, exhaustive, n_random, maxlen=14):
    """all strings over the boundary bytes up to length `exhaustive`, then random ones built from valid characters,
    truncated / overlong / surrogate sequences, stray bytes and NULs"""
    out = [bytes(t) for n in range(exhaustive + 1) for t in itertools.product(REP, repeat=n)]
    for _ in range(n_random):
        b = b''
        for _ in range(rng.randint(1, 6)):
            b += piece(rng)
        out.append(b[:maxlen + rng.randint(0, 10)])
    return out

def enc_raw(c, n):
    """n-byte encoding of c without any check (overlong, surrogate, too big)"""
    if n == 1: return bytes([c & 0x7f])
    lead = {2: 0xc0, 3: 0xe0, 4: 0xf0, 5: 0xf8, 6: 0xfc}[n]
    r = []
    for _ in range(n - 1):
        r.insert(0, 0x80 | (c & 0x3f)); c >>= 6
    return bytes([(lead | c) & 0xff] + r)

def piece(rng):
    k = rng.randint(0, 11)
    if k <= 1: return bytes([rng.randint(0, 127)])
    if k <= 4: return chr(rng.choice([rng.randint(0x80, 0x7ff), rng.randint(0x3040, 0x30ff), rng.randint(0x4e00, 0x9fff),
                                      rng.randint(0x800, 0xd7ff), rng.randint(0xe000, 0xffff), rng.randint(0x10000, 0x10ffff)])).encode()
    if k == 5: return enc_raw(rng.choice([0, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x1fffff,
                                          rng.randint(0, 0x1fffff)]), rng.randint(1, 6))
    if k == 6:
        b = piece(rng)
        return b[:rng.randint(0, len(b))]
    if k == 7: return bytes([rng.choice(REP)])
    if k == 8: return bytes([rng.randint(0, 255)])
    if k == 9: return rng.choice(['\u3099', '\u309a', '\ufe00', '\ufe0f', '\ufe10', '\u3000', '\ufffd']).encode()
    if k == 10: return bytes([rng.randint(0x80, 0xbf)]) * rng.randint(1, 3)
    return bytes([rng.randint(0xc0, 0xff)]) + bytes(rng.randint(0x80, 0xbf) for _ in range(rng.randint(0, 4)))
