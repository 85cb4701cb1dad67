"""U02: encoding. Model: MCUtf8 checks Encode1/Decode inverse on all 1.1M code points; the real encoder (all
overloads) is judged by TraceUtf8 on code points (quick: every 16th block of 64 plus all boundary blocks, thorough: all)
and the real round trip decode(encode(c)) likewise; random sequences are judged as a whole."""
from common import *
from gen_bytes import *

EDGES = [0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff,
         0x110000, 0x1fffff, 0x200000, 0x3ffffff, 0x7fffffff - 64]
def run(c):
    exe = h1()
    c.model('MCUtf8', cfg='MCUtf8T' if c.thorough else 'MCUtf8')
    top = 0x110000 // 64
    want = set(range(top + 4)) if c.thorough else {i for i in range(top + 4) if i % 16 == c.rng.randint(0, 15) or i < 80 or i % 64 in (0, 63)}
    for e in EDGES:
        want |= {e // 64, e // 64 + 1, max(0, e // 64 - 1)}
    blocks = [(b * 64, 64) for b in sorted(want) if b * 64 + 64 <= 0x7fffffff]
    rec = recorder(exe, lambda x: ['encblk', x[0], x[1]], lambda x: dict(op='encblk', c=x[0], n=x[1]))
    c.check('TraceUtf8', rec, batch(blocks, 8), label='encode every code point of a block')
    rec = recorder(exe, lambda x: ['decblk', x[0], x[1]], lambda x: dict(op='decblk', c=x[0], n=x[1]))
    c.check('TraceUtf8', rec, batch([(i * 1024, 1024) for i in range(0x110000 // 1024 + 1)], 4), label='decode(encode(c)) for every code point')
    seqs = [[]]
    for _ in range(c.n(6000, 60000)):
        seqs.append([c.rng.choice([c.rng.choice(EDGES), c.rng.randint(0, 0x110000), c.rng.randint(0, 0x30ff), c.rng.randint(0, 127), c.rng.randint(0, 0x7fffffff)]) for _ in range(c.rng.randint(1, 6))])
    rec = recorder(exe, lambda x: ['enc', ','.join(map(str, x)) or '-'], lambda x: dict(op='enc', c=x))
    c.check('TraceUtf8', rec, batch(seqs), label='encode sequence')
    valid = [''.join(chr(c.rng.choice([c.rng.randint(1, 0xd7ff), c.rng.randint(0xe000, 0x10ffff)])) for _ in range(c.rng.randint(1, 5))).encode() for _ in range(c.n(4000, 40000))]
    junk = byte_strings(c.rng, 2, c.n(6000, 60000))
    rec = recorder(exe, lambda x: ['rt', hx(x)], lambda x: dict(op='rt', b=list(x)))
    c.check('TraceUtf8', rec, batch(valid + junk), label='encode(decode(bytes))')
