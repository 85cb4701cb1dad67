"""K01: kana tables. KanaTab.tla is the table as specification; MCKana checks it entry by entry against the structure of written
Japanese (parallel scripts, vowel columns, voicing pairs, small letters, uniqueness). Every key of every real map, every field,
every style under all 16 flag sets, every link and every iteration mark answer is then compared with it, complete in quick."""
from common import *
def run(c):
    exe = h1()
    c.model('MCKana')
    src = open(vt.SPEC + '/KanaTab.tla', encoding='utf-8').read()
    import re
    tab = []
    for m in re.finditer(r'\[r \|-> "(\w+)", h \|-> "(\w+)", k \|-> "(\w+)", .*?var \|-> <<(.*?)>>', src):
        tab.append((m[1], m[2], m[3], re.findall(r'"(\w+)"', m[4])))
    assert len(tab) == 204
    rom = [x[0] for x in tab]
    T = ['Hiragana', 'Katakana', 'Romaji']
    items = [dict(op='map', type=t) for t in T] + [dict(op='special')]
    kana = [chr(x) for x in list(range(0x3040, 0x3100)) + list(range(0x31f0, 0x3200)) + list(range(0xff61, 0xffa0))]
    for r, h, k, var in tab:
        for t, key in [('Hiragana', h), ('Katakana', k), ('Romaji', r)] + [('Romaji', v) for v in var] + [('Hiragana', k), ('Katakana', h), ('Romaji', h), ('Romaji', r.upper()), ('Hiragana', r)]:
            items.append(dict(op='facts', type=t, t=key))
        for t in (h, k, r): items.append(dict(op='mark', t=t))
    for x in kana + ['', 'a', '字', 'かか', 'ガ゙']:
        items.append(dict(op='mark', t=x)); items.append(dict(op='iter', t=x))
        for t in T: items.append(dict(op='facts', type=t, t=x))
    import string
    for a in string.ascii_lowercase + ' ':
        for b in string.ascii_lowercase: items.append(dict(op='facts', type='Romaji', t=(a + b).strip()))
    for m in ('plain', 'accented'):
        for t in T:
            for f in range(16) if t == 'Romaji' else (0, 3, 15):
                for p in [''] + rom: items.append(dict(op='repeat', mark=m, target=t, flags=f, prev=p))
    pairs = [(a, b) for a in rom for b in rom]
    if not c.thorough: pairs = [(a, a) for a in rom] + c.rng.sample(pairs, 4000)
    for a, b in pairs: items.append(dict(op='same', x=a, y=b))
    if c.thorough:
        for a in string.ascii_lowercase:
            for b in string.ascii_lowercase:
                for d in string.ascii_lowercase: items.append(dict(op='facts', type='Romaji', t=a + b + d))
        for a in kana:
            for b in kana:
                if a < '\u3100' and b < '\u3100': items.append(dict(op='facts', type=c.rng.choice(T), t=a + b))
    def line(e):
        o = e['op']
        return ['kn.' + o] + {'map': lambda: [e['type']], 'special': lambda: [], 'facts': lambda: [e['type'], hx(e['t'])], 'mark': lambda: [hx(e['t'])], 'iter': lambda: [hx(e['t'])],
                              'repeat': lambda: [e['mark'], e['target'], e['flags'], e['prev'] or '-'], 'same': lambda: [e['x'], e['y']]}[o]()
    c.rng.shuffle(items)
    c.check('TraceKana', recorder(exe, line, lambda e: e), batch(items), label='kana tables')
