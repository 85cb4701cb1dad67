"""J05: dictionary numbers, stroke counts, pinyin, radicals. MCKanjiNumbers enumerates every Morohashi text up to 4 characters and all stroke
pairs (canonical text parses to itself, total order); the real classes answer all of them, every index 0..70000 in each form, random texts,
comparisons of all small numbers and strokes, and load generated radical files (the repository's included) and look up names and numbers."""
from common import *
def run(c):
    exe = h2(); rng = c.rng
    R = c.model('MCKanjiNumbers', cfg='MCKanjiNumbersT' if c.thorough else None)
    T = [x for x in vt.prints(R, 'HIST ')]
    for n in list(range(0, 130)) + list(range(6540, 6560)) + list(range(9990, 10012)) + list(range(65520, 65545)) + [99999, 100000, 655350, 655360, 4294967296, 10**20] + (list(range(65600)) if c.thorough else rng.sample(range(70000), 1500)):
        for f in ('%d', '%dP', "%d'", '%dPP', "%d''", 'H%d', '0%d', 'H00%d', '%06dP', "H%dP", "%dP'", "%d'P", "P%d", 'HH%d', ' %d', '%d ', '-%d', '+%dP'): T.append(f % n)
    for _ in range(c.n(4000, 60000)): T.append(''.join(rng.choice("0123456789PH'xé p") for _ in range(rng.randint(1, 9))))
    ops = [dict(op='mo', t=t) for t in dict.fromkeys(T)]
    small = [f % n for n in (0, 1, 2, 9, 10, 255, 256, 65535) for f in ('%d', '%dP', '%dPP', 'H%d', "0%d'") if n or f == '%d'] + ['']
    ops += [dict(op='mocmp', a=a, b=b) for a in small for b in small]
    ops += [dict(op='st', v=v, var=w) for v in range(256) for w in [-1, 0, 1, 2, 3, 4, 5, 32, 33, 34, 64, 65, 127, 128, 254, 255]]
    ops += [dict(op='st', v=v, var=w) for v in range(0, 67) for w in range(0, 36)]
    ok = [dict(v=v, var=w) for v in (1, 2, 3, 4, 33, 34, 63, 64) for w in (-1, 3, 4, 5, 33) if (v > 1 or w < 0) and v != w]
    ops += [dict(op='stcmp', a=a, b=b) for a in ok for b in ok]
    py = ['', 'a', 'ā', 'yī', 'yǐ', 'shàng', 'b' * 40]
    ops += [dict(op='py', a=a, b=b) for a in py for b in py]
    def line(e):
        o = e['op']
        if o == 'mo': return ['mo', hx(e['t'])]
        if o == 'mocmp': return ['mocmp', hx(e['a']), hx(e['b'])]
        if o == 'st': return ['st', e['v'], e['var']]
        if o == 'stcmp': return ['stcmp', e['a']['v'], e['a']['var'], e['b']['v'], e['b']['var']]
        return ['py', hx(e['a']), hx(e['b'])]
    c.check('TraceKanjiNumbers', recorder(exe, line, lambda e: e), batch(ops), label='numbers')
    # radicals
    ins = []; cnt = [0]
    NM = list('一丨丶丿乙亅二亠人儿入八冂冖冫几凵刀力勹') + ['𠂉', '𠆢']
    def session(rows, cols=('Number', 'Name', 'LongName', 'Reading'), extra=''):
        cnt[0] += 1
        h = [dict(op='new'), dict(op='num', n=1), dict(op='name', n='一')] if rng.random() < .3 else [dict(op='new')]
        text = '\n'.join(['\t'.join(cols)] + ['\t'.join(row[x] for x in cols) for row in rows]) + extra
        h.append(dict(op='load', name=f'rad{cnt[0]}.txt', text=text))
        return h
    def row(i, names): return dict(Number=rng.choice(['%d', '%03d', '%02d']) % i, Name=' '.join(names), LongName=rng.choice(['', '一部（いちぶ）', 'x y']), Reading=rng.choice(['', 'イチ', 'ぼう たてぼう']))
    for _ in range(c.n(300, 4000)):
        pool = NM[:]; rng.shuffle(pool)
        n = rng.randint(0, 7)
        rows = [row(i + 1, [pool.pop() for _ in range(rng.choice([1, 1, 2, 3]))]) for i in range(n)]
        if rows and rng.random() < .3:
            i = rng.randrange(len(rows)); rows[i]['Number'] = rng.choice(['0', str(i), str(i + 2), '', 'x', '256', '257', '300', '1', '-1', '65537'])
        if len(rows) > 1 and rng.random() < .1: del rows[rng.randrange(len(rows))]
        if len(rows) > 1 and rng.random() < .1: rng.shuffle(rows)
        cols = ['Number', 'Name', 'LongName', 'Reading']; rng.shuffle(cols)
        h = session(rows, cols, rng.choice(['', '\n']) if rows else '')
        h += [dict(op='num', n=i) for i in list(range(0, 10)) + [255, 256, 257, 65535]]
        h += [dict(op='name', n=x) for x in NM[:8] + [w for q in rows for w in q['Name'].split(' ')] + ['', 'x', ' '.join(NM[:2])]]
        good = all(q['Number'].isdigit() and int(q['Number']) == i + 1 for i, q in enumerate(rows))
        if good and n: h += [dict(op='cmp', a=a, b=b) for a in range(1, len(rows) + 1) for b in range(1, len(rows) + 1)]
        ins.append(h)
    # the repository's radicals, and more rows than there are radicals
    text = open(vt.REPO + '/data/radicals.txt', encoding='utf-8').read()
    h = [dict(op='new'), dict(op='load', name='radicals.txt', text=text)] + [dict(op='num', n=i) for i in range(0, 217)]
    h += [dict(op='name', n=w) for l in text.split('\n')[1:-1] for w in l.split('\t')[1].split(' ')]
    ins.append(h)
    def rec(inputs):
        L = {'new': lambda e: ['ra.new'], 'load': lambda e: ['ra.load', hx(e['name']), hx(e['text'])], 'num': lambda e: ['ra.num', e['n']], 'name': lambda e: ['ra.name', hx(e['n'])], 'cmp': lambda e: ['ra.cmp', e['a'], e['b']]}
        rep = vt.run_sessions(exe, [[L[e['op']](e) for e in h] for h in inputs])
        return [dict(init=0, steps=[dict(e, r=r) for e, r in zip(h, rs)]) for h, rs in zip(inputs, rep)]
    c.check('TraceRadicals', rec, ins, label='radicals')
