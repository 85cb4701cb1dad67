"""S01: counting characters. Utf8Count.tla gives the counts a string, file or directory tree adds, with furigana removed in chunks of
lines; MCUtf8Count checks on every file of a few lines that the chunks are the text and that furigana (also across a line break), and
nothing else, is removed. Those files, random strings and files (every kind of character, marks, selectors, invalid bytes, brackets) and
directory trees (nested, links, files that may only be read, non-files) are counted by the real class and every count is compared."""
from common import *
PIECE = list('漢字読々〇かなカナーゝンＡａｱ１，。、〜「」…→★αñＡ') + ['（', '）', '（かな）', '（カナ）', '（', '）', '漢（かん）字（じ）', '（', '）', '\u3000', '\u3099', '\u309a', '\ufe00', 'か\u3099', 'は\u309a', 'や\u309a', '逸\ufe01', '𠮟', '𠮟（しか）る',
       '㐀', '豈', '⺀', '\u30a0', '\u30ff', '\u31f0', '\u3040', '\u309f', '\uff00', '\uffef', '\ufff0', '（）', '(かな)', 'a', ' ', 'Z', '가', 'Ж']
BAD = [b'\xe6\xbc', b'\xff', b'\x80', b'\xe3', b'\xef\xbc', b'\xc0\x80', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\x00']
def text(rng, n):
    b = b''
    for _ in range(rng.randint(0, n)):
        b += rng.choice(BAD) if rng.random() < .04 else rng.choice(PIECE).encode()
    return b.replace(b'\n', b'')
def lines(rng):
    x = rng.random()
    q = []
    for _ in range(rng.randint(0, 6)): q.append(text(rng, rng.choice([0, 1, 3, 8])))
    if x < .5 and len(q) > 1: # furigana across a line break
        i = rng.randrange(len(q) - 1); f = '漢（' + ''.join(rng.choice('かなカ') for _ in range(rng.randint(0, 3))) + '）'
        cut = rng.randint(1, len(f) - 1); q[i] += f[:cut].encode(); q[i + 1] = f[cut:].encode() + q[i + 1]
    return q
def name(rng, used):
    while True:
        n = (''.join(rng.choice(list('ab.漢かカ１') + ['漢（かん）', 'か\u3099', 'Ж']) for _ in range(rng.randint(1, 3)))).encode()
        if n not in used and n not in (b'.', b'..'): used.add(n); return n
def leaf(rng, nm, q=None):
    q = lines(rng) if q is None else q
    nl = rng.random() < .7 or (q and not q[-1]) # (a last line without line end is not empty)
    return dict(k='f', name=nm, lines=q, nl=bool(nl), ro=rng.random() < .15)
def tree(rng, nm, depth):
    used, sub = set(), []
    for _ in range(rng.randint(0, 4)):
        n = name(rng, used); x = rng.random()
        if x < .55: sub.append(leaf(rng, n))
        elif x < .8 and depth: sub.append(tree(rng, n, depth - 1))
        elif x < .9: sub.append(dict(k='l', name=n, to=rng.choice(['/etc/hostname', '..', 'nowhere', '.'])))
        else: sub.append(dict(k='x', name=n))
    return dict(k='d', name=nm, sub=sub)
def fields(n, at=b''):
    p = at + n['name']
    if n['k'] == 'f': return ['r' if n['ro'] else 'f', hx(p), hx(b'\n'.join(n['lines']) + (b'\n' if n['nl'] and n['lines'] else b''))]
    if n['k'] == 'l': return ['l', hx(p), hx(n['to'])]
    if n['k'] == 'x': return ['p', hx(p), hx('-')]
    q = ['d', hx(p), hx('')]
    for c in n['sub']: q += fields(c, p + b'/')
    return q
def clean(n):
    """for the specification"""
    if n['k'] == 'f': return dict(k='f', name=list(n['name']), lines=[list(l) for l in n['lines']])
    return dict(k=n['k'], name=list(n['name']), **(dict(sub=[clean(c) for c in n['sub']]) if n['k'] == 'd' else {}))
def line(e):
    if e['op'] == 'new': return ['cnt.new', int(e['find']), e['filter'], int(e['dbg'])]
    if e['op'] == 'add': return ['cnt.add', hx(e['s']), int(e['hasTag']), hx(e['tag'])]
    if e['op'] == 'missing': return ['cnt.file', 1, 1, 1, hx(e['text']), 'd', hx('dir'), hx('')]
    if e['op'] == 'run': return ['cnt.add', hx('漢（' + 'か' * e['n'] + '）'), 0, hx('')]
    r, top = e['root'], e['root']['name']
    if e['how'] == 'link': return ['cnt.file', int(e['tag']), int(e['names']), int(e['recurse']), hx(top)] + fields(dict(r, name=b'real')) + ['l', hx(top), hx('real')]
    return ['cnt.file', int(e['tag']), int(e['names']), int(e['recurse']), hx(top + (b'/' if e['how'] == 'slash' else b''))] + fields(r)
def event(e):
    if e['op'] == 'add': return dict(op='add', s=list(e['s']), hasTag=e['hasTag'], tag=list(e['tag']))
    if e['op'] == 'file': # a path that ends in / has an empty file name
        r = clean(e['root'])
        if e['how'] == 'slash': r['name'] = []
        return dict(op='file', root=r, tag=e['tag'], names=e['names'], recurse=e['recurse'])
    return e
def recorder_cnt(exe):
    def rec(inputs):
        rep = vt.run_sessions(exe, [[line(e) for e in h] for h in inputs])
        return [dict(init=dict(find=h[0]['find'], filter=h[0]['filter'], dbg=h[0]['dbg']), steps=[dict(event(e), r=r, **(dict(crashed=True) if 'crash' in r else {})) for e, r in zip(h, rs)]) for h, rs in zip(inputs, rep)]
    return rec
FILTERS = ['all', 'all', 'all', 'hiragana', 'katakana', 'kanji', 'common', 'rare', 'punct', 'symbol', 'letter', 'unrecognized']
def run(c):
    exe = h2(); rng = c.rng
    H = []
    for cfg in ['MCUtf8CountT', 'MCUtf8Count3'] if c.thorough else ['MCUtf8Count', 'MCUtf8Count3']:
        H += vt.prints(c.model('MCUtf8Count', cfg=cfg, timeout=700), 'HIST ')
    H = rng.sample(H, min(len(H), c.n(4000, 40000)))
    c.cov['model_histories_replayed'] = len(H)
    one = lambda q, nm=b'f': dict(op='file', root=leaf(rng, nm, q), tag=True, names=False, recurse=True, how='plain')
    new = lambda find=True, filter='all', dbg=False: dict(op='new', find=find, filter=filter, dbg=dbg)
    ins = [[new(dbg=True)] + [one([''.join(map(chr, l)).encode() for l in h]) for h in b] for b in chunks(H, 5)]
    c.check('TraceUtf8Count', recorder_cnt(exe), ins, label='files of the model')
    ins = []
    for _ in range(c.n(900, 12000)):
        h = [new(rng.random() < .7, rng.choice(FILTERS), rng.random() < .5)]
        for _ in range(rng.randint(1, 6)):
            x = rng.random(); nm = name(rng, set())
            if x < .35: h.append(dict(op='add', s=text(rng, 12), hasTag=rng.random() < .6, tag=rng.choice([b'', b't', 'あ'.encode()])))
            elif x < .65 or h[0]['dbg']: h.append(dict(op='file', root=leaf(rng, nm), tag=rng.random() < .7, names=rng.random() < .6, recurse=rng.random() < .7, how=rng.choice(['plain', 'plain', 'link'])))
            elif x < .95: h.append(dict(op='file', root=tree(rng, nm, 2), tag=rng.random() < .7, names=rng.random() < .6, recurse=rng.random() < .6, how=rng.choice(['plain', 'slash', 'link'])))
            elif x < .97: h.append(dict(op='file', root=dict(k='x', name=nm), tag=True, names=True, recurse=True, how='plain'))
            else: h.append(dict(op='missing', text=rng.choice(['none', 'dir/none', '漢字', 'dir/x/y'])))
        ins.append(h)
    c.check('TraceUtf8Count', recorder_cnt(exe), ins, label='strings, files and trees')
    # long lines
    ins = [[new(f), dict(op='add', s=('漢字（かな）' * n + 'ア' * n).encode(), hasTag=False, tag=b'')] for f in (True, False) for n in (50, 120)]
    c.check('TraceUtf8Count', recorder_cnt(exe), ins, label='long strings')
    ins = [[new(), dict(op='run', n=n)] for n in (100, 1000, 200000)]
    c.check('TraceUtf8Count', recorder_cnt(exe), ins, label='long furigana')
