"""U06: display width of every code point (as maximal ranges of equal width) and of strings, and padding."""
from common import *
from gen_bytes import *
def run(c):
    exe = h1()
    c.model('MCDisplayWidth', cfg='MCDisplayWidthT' if c.thorough else None)
    rec = recorder(exe, lambda x: ['width.ranges'], lambda x: dict(op='ranges'))
    c.check('TraceDisplayWidth', rec, [[0]], label='every code point')
    items = []
    for b in byte_strings(c.rng, 2, c.n(12000, 150000)):
        items.append((b, c.rng.randint(0, 20)))
    for _ in range(c.n(8000, 100000)):
        items.append((''.join(chr(c.rng.choice([0x41, 0x3042, 0x4e00, 0x3099, 0xfe01, 0xff21, 0xff71, 0x1f300, 0x2500, 0x20000, 0x231a, c.rng.randint(0x2000, 0x33ff), c.rng.randint(0xf900, 0xffef)])) for _ in range(c.rng.randint(0, 8))).encode(), c.rng.randint(0, 40)))
    rec = recorder(exe, lambda x: ['width', hx(x[0]), x[1]] + ([1] if x[1] % 3 == 0 else []), lambda x: dict(op='width', b=list(x[0]), n=x[1]))
    c.check('TraceDisplayWidth', rec, batch(items), label='strings')
