"""U04: character classes. Every predicate in every form over every code point (as ranges), and on strings; what blocks say
about themselves (limits, size, version, printed form) and every position of the block ranges."""
import itertools
from common import *
from gen_bytes import *
CH = [c.encode() for c in 'Aあアㇰ㐀一鿿渚𠮟⺀𰀀𪜀、　\ufffd℃Ç\u024fＡ\u3099\u309a\ufe00\ufe0f\ufe10\u3130\u3040\u309f\u30a0\u30ff゛ーヿ'] + [b'\xe3', b'\x80', b'\xe3\x81', b'\0', b'\xf0\xa0\xae']
def strings(rng, quick):
    out = [b''.join(t) for n in range(3) for t in itertools.product(CH, repeat=n)]
    if not quick:
        out += [b''.join(t) for t in itertools.product(CH[:24], repeat=3)]
    for _ in range(12000 if quick else 150000):
        cls = rng.choice(['kana', 'kanji', 'mix', 'mix', 'same'])
        n = rng.randint(1, 7)
        if cls == 'mix': b = b''.join(rng.choice([rng.choice(CH), piece(rng)]) for _ in range(n))
        else:
            rngs = {'kana': [(0x3041, 0x30ff)], 'kanji': [(0x3400, 0x4dbf), (0x4e00, 0x9fff), (0x20000, 0x2a6df), (0x2a700, 0x2ebef), (0x30000, 0x3134f)],
                    'same': [rng.choice([(0x3000, 0x303f), (0x2190, 0x22ff), (0x80, 0x24f), (0xff00, 0xffef), (0x31f0, 0x31ff), (0x3040, 0x309f), (0xf900, 0xfaff), (0x2e80, 0x2eff), (0x2f800, 0x2fa1f)])]}[cls]
            b = b''
            for _ in range(n):
                b += chr(rng.randint(*rng.choice(rngs))).encode()
                if rng.random() < .25: b += rng.choice(['\u3099', '\ufe00', '\ufe05', '\ufe0f', '\u309a', '\ufe00\ufe00']).encode()
            if rng.random() < .3:
                b += rng.choice(CH)
        out.append(b)
    return out
def run(c):
    exe = h1()
    c.model('MCCharClass', cfg='MCCharClassT' if c.thorough else None)
    names = ['kana', 'hiragana', 'katakana', 'kanji', 'common', 'rare', 'symbol', 'letter', 'recognized']
    ops = [(n, f) for n in names for f in range(5)] + [('nonspacing', 0)] + [('punct', 0), ('punct', 1), ('punctspace', 0), ('punctspace', 1), ('punctspace', 2), ('punctspace', 4), ('punct', 4)]
    rec = recorder(exe, lambda x: ['ranges', *x], lambda x: dict(op='ranges', p=x[0], form=x[1]))
    c.check('TraceCharClass', rec, batch(ops, 3), label='every code point')
    rec = recorder(exe, lambda x: ['cls', hx(x)], lambda x: dict(op='cls', b=list(x)))
    c.check('TraceCharClass', rec, batch(strings(c.rng, not c.thorough)), label='strings')
    fam = ['hiragana', 'katakana', 'kana', 'common', 'rare', 'punct', 'symbol', 'letter', 'nonspacing', 'own']
    rec = recorder(exe, lambda x: list(x), lambda x: dict(op=x[0], p=x[1]))
    c.check('TraceCharClass', rec, batch([('blocks', f) for f in fam] + [('brange', f) for f in ('kanji', 'wide', 'hiragana', 'katakana', 'kana')], 5), label='blocks and block ranges')
