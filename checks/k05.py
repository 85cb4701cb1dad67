"""K05: tables. Table.tla renders a table; MCTable checks over every small table that lines align by display columns, cells can be read
back, sections and numbering are where they belong. Random tables of every kind of character, with unequal rows, are built on the
real class step by step, printed in both forms in between, on streams left in odd formatting states, and compared byte by byte."""
from common import *
def record_with(exe):
    def line(e):
        if e['op'] in ('new', 'add'): return ['tb.' + e['op'], int(e['flag']), *(hx(bytes(x)) for x in e['cells'])]
        return ['tb.' + e['op'], int(e['odd'])]
    def rec(inputs):
        rep = vt.run_sessions(exe, [[line(e) for e in h] for h in inputs])
        return [dict(init=0, steps=[dict(e, r=r) for e, r in zip(h, rs)]) for h, rs in zip(inputs, rep)]
    return rec
def run(c):
    exe = h1(); rng = c.rng
    c.model('MCTable', cfg='MCTableT' if c.thorough else None, timeout=700)
    A = list('abcXYZ012 |-+*_#<>&\\') + list('かカ漢字ー。　ｱＡéāŌ…─■°') + ['\u3099', '\ufe00', '\u200b', '𠀋', '😀', '\U000e0100', '\x00', '\x7f', '\t']
    BAD = [b'\x80', b'\xe3\x81', b'\xff', b'\xc0\xaf', b'\xf0\x9f\x98']
    def cell():
        x = rng.random()
        if x < .18: return []
        if x < .3: return list(rng.choice([b'|', b'||', b'a|b', b' ', b'  x ', b'**', b'---', b'0123456789' * 3]))
        b = b''.join(rng.choice(A).encode() if rng.random() < .97 else rng.choice(BAD) for _ in range(rng.choice([1, 1, 2, 3, 5, 9])))
        return list(b)
    cells = lambda m: [cell() for _ in range(rng.randint(0, m))]
    ins = []
    for _ in range(c.n(900, 12000)):
        m = rng.choice([0, 1, 2, 3, 4, 6])
        h = [dict(op='new', flag=rng.random() < .4, cells=cells(m) if rng.random() < .75 else [])]
        for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 13])):
            h.append(dict(op='add', flag=rng.random() < .3, cells=cells(m)))
            if rng.random() < .15: h.append(dict(op=rng.choice(['print', 'md']), odd=rng.random() < .3))
        h += [dict(op='print', odd=rng.random() < .3), dict(op='md', odd=rng.random() < .3)]
        if rng.random() < .3: h.append(dict(op='print', odd=False))
        ins.append(h)
    c.check('TraceTable', record_with(exe), ins, label='tables')
