"""U05: character iteration. Sessions over one Utf8Char: every short history of next/peek/reset in both modes on every
string of up to 2 (3) pieces, plus random long ones; static functions on all byte strings used."""
import itertools
from common import *
from gen_bytes import *
OPS = [['u8.next', 1], ['u8.next', 0], ['u8.peek', 1], ['u8.peek', 0], ['u8.reset']]
PIECES = [b'A', b'\0'] + [x.encode() for x in 'かはウ一㐀𠀀\u3099\u309a\ufe00\ufe0fé'] + [b'\xe9', b'\xe3\x81', b'\x80']
# kana of every row (for the accented forms)
KANA = [chr(i).encode() for i in range(0x3041, 0x3100)]
def record_with(exe):
    def rec(inputs):
        rep = vt.run_sessions(exe, [[['u8.new', x[0]]] + x[1] for x in inputs])
        out = []
        for (b, ops), rs in zip(inputs, rep):
            steps = []
            for o, r in zip([['u8.new', b]] + ops, rs):
                if o[0] == 'u8.new':
                    if 'crash' not in r: continue
                    steps.append(dict(op='info', r=r)); continue
                ev = dict(op=o[0][3:], r=r)
                if len(o) > 1 and o[0] != 'u8.info': ev['mb'] = o[1] == 1
                steps.append(ev)
            out.append(dict(init=list(vt.unhx(b)), steps=steps))
        return out
    return rec
def run(c):
    exe = h1()
    c.model('MCUtf8Char', cfg='MCUtf8CharT' if c.thorough else None)
    ins = []
    def hist(n):
        h = [c.rng.choice(OPS) for _ in range(n)]
        return h
    def add(b, ops): ins.append((hx(b), [['u8.info', hx(b)]] + ops))
    strs = [b''.join(t) for n in range(c.n(3, 4)) for t in itertools.product(PIECES, repeat=n)]
    for b in strs:
        add(b, [OPS[0]] * 2 + [OPS[2]] + [OPS[0]] * 3 + [['u8.reset']] + [OPS[1]] * 2 + [OPS[3], OPS[1], OPS[2], OPS[1], OPS[1]])
    for t in itertools.product(OPS, repeat=4):   # every history of 4 calls
        for b in (PIECES[2] + PIECES[6 + 2] + b'B' + PIECES[4], '一\ufe00か\u3099x'.encode(), 'aあ\u3099'.encode()):
            add(b, list(t))
    for k in KANA:                                # every kana with each mark
        for m in '\u3099\u309a\ufe00':
            add(k + m.encode() + b'z', [OPS[3], OPS[0], OPS[1]])
    for i in range(16):
        add('渚'.encode() + bytes([0xef, 0xb8, 0x80 + i]) + b'z', [OPS[2], OPS[0], OPS[1]])
    for i in range(256):
        add('一'.encode() + bytes([0xef, 0xb8, i]), [OPS[0], OPS[0]]); add('か'.encode() + bytes([0xe3, 0x82, i]), [OPS[0], OPS[0]])
    for b in byte_strings(c.rng, 2, c.n(6000, 80000)):
        add(b, hist(c.rng.randint(3, 12)))
    for _ in range(c.n(3000, 40000)):
        b = b''.join(c.rng.choice(PIECES + KANA) for _ in range(c.rng.randint(3, 10))); add(b, hist(c.rng.randint(4, 16)))
    c.check('TraceUtf8Char', record_with(exe), ins, label='iterator sessions')
