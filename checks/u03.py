"""U03: validation. MCUtf8 relates Validate to Unicode Table 3-7 and to the decoder; TraceUtf8 judges every validation
function of the real code on all boundary byte strings up to length 3 (quick) / 4 (thorough) plus random ones."""
from common import *
from gen_bytes import *
def run(c):
    exe = h1()
    c.model('MCUtf8', cfg='MCUtf8T' if c.thorough else 'MCUtf8')
    items = byte_strings(c.rng, c.n(3, 4), c.n(20000, 300000))
    # valid and broken sequences of every length followed by something
    for _ in range(c.n(20000, 200000)):
        b = piece(c.rng)
        if b and b[0] >= 0x80: items.append(b + c.rng.choice([b'', b'', b'a', b'\x00', b'\x80', b'\x00a', piece(c.rng)]))
    # all 2-byte lead/continuation pairs
    items += [bytes([x, y]) for x in range(128, 256) for y in range(256)] if c.thorough else [bytes([x, y]) for x in range(128, 256) for y in REP]
    rec = recorder(exe, lambda x: ['val', hx(x)], lambda x: dict(op='val', b=list(x)))
    c.check('TraceUtf8', rec, batch(items), label='validate')
