"""U07: string helpers."""
from common import *
from gen_bytes import *
BR = ['Curly', 'Round', 'Square', 'None']
W = dict(char=8, u8=8, u16=16, u32=32, code=32, u64=64)
CAP = 2**31 - 1
def run(c):
    exe = h1(); rng = c.rng
    c.model('MCStrings', cfg='MCStringsT' if c.thorough else None)
    nums = []
    for t, w in W.items():
        vals = {0, 1, 2, 9, 10, 15, 16, 255} | {2**i for i in range(w)} | {2**i - 1 for i in range(w + 1)} | {rng.getrandbits(rng.randint(1, w)) for _ in range(c.n(250, 3000))}
        if w == 8: vals |= set(range(256))
        for v in vals:
            if v < 2**w: nums.append((t, v, rng.choice(BR), rng.choice([0, 0, 0, 1, 2, 4, 8, 9, 17, 33, 70])))
    rec = recorder(exe, lambda x: ['num', *x], lambda x: dict(op='num', type=x[0], bits=[int(b) for b in bin(x[1])[2:].zfill(W[x[0]])], br=x[2], n=x[3]))
    c.check('TraceStrings', rec, batch(nums, 100), label='binary and hex')
    strs = [(b, rng.choice(BR), rng.choice([0, 1, 3, 6, 12])) for b in byte_strings(rng, 2, c.n(4000, 60000))]
    asc = [bytes([i]) for i in range(256)] + [bytes([i, j]) for i in (64, 65, 90, 91, 96, 97, 122, 123, 0x80, 0xc3) for j in range(256)]
    asc += [bytes(rng.choice(b'aAzZ@[`{019 \xc3\xa9\xff\x00') for _ in range(rng.randint(0, 9))) for _ in range(c.n(3000, 40000))]
    strs += [(b, rng.choice(BR), rng.choice([0, 1, 3, 6])) for b in asc]
    rec = recorder(exe, lambda x: ['str', hx(x[0]), x[1], x[2]], lambda x: dict(op='str', b=list(x[0]), br=x[1], n=x[2]))
    c.check('TraceStrings', rec, batch(strs), label='case, single byte, brackets, zeroes')
    rec = recorder(exe, lambda x: ['uni', hx(x[0]), x[1]], lambda x: dict(op='uni', b=list(x[0]), br=x[1]))
    c.check('TraceStrings', rec, batch([x for x in strs if b'\0' not in x[0]][::2]), label='unicode of strings')
    cs = [[rng.choice([0x41, 0x7f, 0x80, 0xf, 0x10, 0xfff, 0x1000, 0xffff, 0x10000, 0x10ffff, 0x7fffffff, rng.randint(0, 0x10ffff)]) for _ in range(rng.randint(0, 5))] for _ in range(c.n(3000, 40000))]
    cs += [[x] for x in list(range(0, 300)) + [2**i for i in range(31)] + [2**i - 1 for i in range(31)]]
    rec = recorder(exe, lambda x: ['unic', ','.join(map(str, x[0])) or '-', x[1]], lambda x: dict(op='unic', c=x[0], br=x[1]))
    c.check('TraceStrings', rec, batch([(x, rng.choice(BR)) for x in cs]), label='unicode of code points')
    rec = recorder(exe, lambda x: ['sc', ','.join(map(str, x[0])) or '-', x[1]], lambda x: dict(op='sc', c=x[0], n=x[1]))
    c.check('TraceStrings', rec, batch([(x, rng.choice([0, 1, 3, 7])) for x in cs]), label='code point strings')
    chars = [('int', x, neg) for x in list(range(-300, 300)) + [-2**31, 2**31 - 1, -65536, 65536, -2**16 + 65, 2**16 + 65, 256 * 7] for neg in (0, 1)]
    edges = list(range(0, 300)) + [511, 512, 65535, 65536, 2**16 + 65, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 65, 2**63, 2**64 - 1] + [rng.getrandbits(rng.randint(1, 64)) for _ in range(200)]
    for t, w in (('uint16_t', 16), ('uint32_t', 32), ('size_t', 64), ('Code', 32), ('uint8_t', 8)):
        chars += [(t, x, 0) for x in edges if x < 2**w]
    rec = recorder(exe, lambda x: ['char', *x], lambda x: dict(op='char', type=x[0], x=max(-CAP, min(CAP, x[1])), neg=bool(x[2]), xs=f'{x[1]:04x}' if x[0] == 'Code' else str(x[1])))
    c.check('TraceStrings', rec, batch(chars), label='toChar')
    rec = recorder(exe, lambda x: ['uchar', x], lambda x: dict(op='uchar', x=x))
    c.check('TraceStrings', rec, batch(list(range(256))), label='toUChar')
