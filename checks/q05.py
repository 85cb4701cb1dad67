"""Q05: compound words. Jukugo.tla loads the seven files entry by entry; MCJukugo checks on every sequence of a few entries in two files
that a kanji lists exactly the words containing it, once each and in order, and that loading fails exactly for malformed or conflicting entries.
Those files and random ones (repeated kanji, kana, selectors, combining marks, all bracket and separator mistakes, repeats within and across
files) and blocks of the shipped files are loaded by the real class and the words of every kanji are compared."""
from kd import *
import j02
K = list('一二三日本人漢字大〇々𠮟㐀')
KANA = list('あかんしゃがー')
def word(rng):
    n = rng.choice([2, 2, 2, 3, 4])
    q = [rng.choice(K) for _ in range(n)]
    x = rng.random()
    if x < .15: q.insert(rng.randint(0, n), rng.choice(['い', 'ら', 'カ', 'か\u3099', 'a', '、']))
    elif x < .22: i = rng.randrange(n); q[i] += rng.choice(['\ufe00', '\ufe01'])
    elif x < .26: q[1] = q[0]
    elif x < .28: q = q[:1]
    elif x < .29: q = ['あ', 'い']
    return ''.join(q)
def reading(rng):
    if rng.random() < .03: return rng.choice(['', 'カン', 'ｱ', 'あa', 'あ い', '漢', 'あ、'])
    return ''.join(rng.choice(KANA + ['か\u3099'] * (rng.random() < .1)) for _ in range(rng.randint(1, 3)))
def entry(rng, single, known):
    w, y = rng.choice(known) if known and rng.random() < .25 else (word(rng), reading(rng))
    if single and ' ' in y or not single and ' ' in w + y: y = y.replace(' ', '')
    known.append((w, y)) if rng.random() < .8 else None
    t = f'{w} ({y})' if single else f'{w}({y})'
    if rng.random() < .02:
        t = rng.choice([w, f'{w}({y}', f'{w} {y})', f'{w})({y})', f'{w})({y}', f'{w} )({y}', f'{w} ({y}) ', f'{w} ({y})x', f'{w}({y})', f'({y})', f' ({y})', f'{w} (({y})', f'{w} ({y}))', f'{w}（{y}）', '', '()', ')(', f'{w}  ({y})'])
        if not single: t = t.replace(' ', '') or '()'
    return t
def files(rng):
    out, known = [], []
    for f in range(7):
        here = list(known) if rng.random() < .05 else [] # words of other files are conflicts
        q = []
        for _ in range(rng.choice([0, 0, 1, 2, 4]) if f < 6 else rng.choice([0, 1, 3])):
            if f < 6: q.append(entry(rng, True, here)); continue
            sep = ' ' if rng.random() < .97 else '  '
            l = rng.choice(K) + rng.choice([' ... ', ' ... ', ' ... ', '... ', ' .... ' if rng.random() < .1 else ' ... ']) + sep.join(entry(rng, False, here) for _ in range(rng.choice([1, 2, 3])))
            x = rng.random()
            if x < .02: l = rng.choice([l.replace('...', '..'), l.replace('...', '…'), '', '一 ...', '一 ... ', '...', l + ' '])
            q.append(l)
        known += here
        out.append(q)
    return out
def line(x):
    f, ask = x
    q = ['ju.load', len(ask)] + [hx(k) for k in ask]
    for i, n in enumerate(['g1', 'g2', 'g3', 'g4', 'g5', 'g6', 'other']): q += [hx(n + '.txt'), hx(b'\n'.join(f[i]) + (b'\n' if f[i] else b''))]
    return q
def rec(exe, rng):
    D = G.finish(j02.sequence(rng, 3))
    def f(inputs):
        rep = vt.run_sessions(exe, [[['kd.load'] + fields(D)] + [line(x) for x in b] for b in inputs])
        fix = lambda r: dict(E=r['E'], b=list(r['m'].encode())) if 'E' in r else r
        return [dict(init=0, steps=[dict(op='load', files=[[list(l) for l in q] for q in x[0]], ask=[list(k) for k in x[1]], r=fix(r)) for x, r in zip(b, rs[1:])]) for b, rs in zip(inputs, rep)]
    return f
def asks(fs):
    s = set()
    for q in fs:
        for l in q:
            t = l.decode('utf8', 'replace')
            s.update(t); s.update(t[i:i + 2] for i in range(len(t) - 1) if '\ufe00' <= t[i + 1] <= '\ufe0f')
    return sorted(k.encode() for k in s if k > '\x7f') + [b'', b'a', '龍'.encode()]
def run(c):
    exe = h2(); rng = c.rng
    H = [[[bytes(l) for l in q] for q in h] for h in vt.prints(c.model('MCJukugo', cfg='MCJukugoT' if c.thorough else 'MCJukugo', timeout=800), 'HIST ')]
    c.cov['model_histories_replayed'] = len(H)
    c.check('TraceJukugo', rec(exe, rng), batch([(h, asks(h)) for h in H], 60), label='files of the model')
    F = [[[l.encode() for l in q] for q in files(rng)] for _ in range(c.n(4000, 60000))]
    c.check('TraceJukugo', rec(exe, rng), batch([(h, asks(h)) for h in F], 40), label='random files')
    # blocks of the shipped files
    F = []
    for _ in range(c.n(24, 400)):
        q = [open(f'{vt.REPO}/data/jukugo/{n}.txt', 'rb').read().split(b'\n')[:-1] for n in ('g1', 'g2', 'g3', 'g4', 'g5', 'g6', 'other')]
        k = [rng.randrange(len(l)) for l in q]
        F.append([l[i:i + 12] for l, i in zip(q, k)])
    c.check('TraceJukugo', rec(exe, rng), batch([(h, asks(h)) for h in F], 4), label='shipped files')
