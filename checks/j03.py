"""J03: list files. MCListFile enumerates every pair of small files (two names, a character that is no name, space, newline) and pair
of types and checks acceptance, order, positions and uniqueness per family; all those pairs are loaded by the real classes, together with
generated sequences of plain, level and kyu lists (shared names, bad UTF-8, empty lines, missing files) and lists at the size limit."""
from common import *
TYPES = ['plain', 'plain', 'plain', 'N5', 'N4', 'N3', 'N2', 'N1', 'K10', 'K9', 'K8', 'K7', 'K6', 'K5', 'K4', 'K3', 'KJ2', 'K2', 'KJ1', 'K1']
POOL = list('一二三四五六七八九十百千万円漢字侮亜唖é¡©あアａ〇々') + ['𠮟', '𠀋', '🎌', '\ufe00', '\u3099']
BADC = ['a', 'Z', '0', '<80>', '<ff>', '<e4>', '<c0>', '<ed>', '\t', '-']
def record_with(exe):
    raw = lambda cs: b''.join(bytes([int(c[1:3], 16)]) if len(c) == 4 and c[0] == '<' else c.encode() for c in cs)
    def rec(inputs):
        sess = []
        for h in inputs:
            L = []
            for e in h:
                o = e['op']
                if o == 'load': L.append(['lf.load', hx(e['given']), hx(e['file']), 'none' if e['kind'] == 'missing' else e['kind'], e['type'], e['mode'], hx(raw(e['chars']))] + [hx(x) for x in e['ask']])
                elif o == 'big': L.append(['lf.big', hx(e['file']), e['n']])
                elif o == 'getfile': L.append(['lf.getfile', hx(e['dir']), e['dirkind'], hx(e['file']), e['plain'], e['txt']])
                elif o == 'print': L.append(['lf.print', hx(e['type']), hx(e['group'])] + [hx(x) for x in e['names']])
                else: L.append(['lf.' + o])
            sess.append(L)
        rep = vt.run_sessions(exe, sess)
        return [dict(init=0, steps=[dict(e, r=r) for e, r in zip(h, rs)]) for h, rs in zip(inputs, rep)]
    return rec
def run(c):
    exe = h2(); rng = c.rng
    R = c.model('MCListFile')
    if c.thorough: c.model('MCListFile', cfg='MCListFileT')
    ins = []; cnt = [0]
    def load(type, chars, one, ask, kind='file', ext=None):
        cnt[0] += 1
        stem = rng.choice(['list', 'x', 'Names', 'éa']) + str(cnt[0])
        ext = rng.random() < .5 if ext is None else ext
        f = stem + '.txt' if ext or rng.random() < .8 else stem
        given = f if ext else stem
        name = (stem[0].upper() if stem[0].isascii() else stem[0]) + stem[1:] if type == 'plain' else type
        # the missing file is reported by the last name tried
        shown = f if kind == 'file' else given + ('' if given.endswith('.txt') else '.txt')
        if kind != 'file': f = shown
        return dict(op='load', given=given, file=shown if kind != 'file' else f, kind=kind, name=name, type=type, one=(one or one is None) if type == 'plain' else False,
                    mode='d' if one is None else '1' if one else '0', chars=chars, ask=ask)
    m = {'A': '亜', 'B': '𠮟', 'x': 'x', ' ': ' ', '\n': '\n'}
    hist = vt.prints(R, 'HIST ')
    if not c.thorough: hist = rng.sample(hist, min(len(hist), 20000))
    for e in hist:
        one = e['one'] if e['one'] or rng.random() < .5 else False
        if one and rng.random() < .5: one = None
        h = [dict(op='reset')]
        h.append(load(e['t1'], [m[x] for x in e['f1']], one, ['亜', '𠮟', 'x'], ext=True))
        h.append(load(e['t2'], [m[x] for x in e['f2']], one, ['亜', '𠮟', 'x'], ext=True))
        ins.append(h)
    hist = None
    for _ in range(c.n(600, 20000)):
        h = [dict(op='reset')]
        pool = POOL[:]; rng.shuffle(pool)
        for _ in range(rng.randint(1, 6)):
            type = rng.choice(TYPES); one = rng.choice([None, True, False])
            chars = []
            for _ in range(rng.randint(0, 9)):
                w = pool.pop() if pool and rng.random() < .96 else rng.choice(POOL)
                chars.append(w)
                if rng.random() < .02: chars.append(rng.choice(POOL + BADC))
                if rng.random() < .02: chars[-1] = rng.choice(BADC)
                chars.append('\n' if (one is not False and type == 'plain' and rng.random() < .98) or rng.random() < .3 else ' ')
                if rng.random() < .03: chars.append(rng.choice([' ', '\n', '\n']))
            if chars and rng.random() < .3: chars.pop()
            ask = rng.sample(POOL, 4) + ['', 'a', '亜亜']
            h.append(load(type, chars, one, ask, kind=rng.choice(['file'] * 30 + ['missing', 'dir'])))
        ins.append(h)
    for n in [1, 2, 1000, 65533, 65534, 65535, 65536, 66000]: ins.append([dict(op='reset'), dict(op='big', file=f'big{n}.txt', n=n)])
    for i, (dk, pl, tx, nm) in enumerate(itertools.product(['dir', 'file', 'none'], ['none', 'file', 'dir'], ['none', 'file', 'dir'], ['f', 'g.txt', 'h.x', 'k.', '.z', 'f1.2.txt'])):
        if dk != 'dir': pl = tx = 'none'
        ins.append([dict(op='getfile', dir=f'd{i}', dirkind=dk, file=nm, plain=pl, txt=tx, ext='.' in nm[1:])])
    for _ in range(60):
        ins.append([dict(op='print', type=rng.choice(['X', 'Linked Old', '']), group=rng.choice(['', 'N5', 'Frequency']), names=rng.sample(POOL, rng.randint(0, 4)))])
    c.check('TraceListFile', record_with(exe), ins, label='list files')
