"""Q06: what loading groups and compound words reports with -info and -debug. QuizReport.tla counts over what Groups.tla and Jukugo.tla load;
MCQuizReport checks over pairs of rows that the parts add up. The real classes load generated files with both options (and without) and the
whole text is compared."""
from kd import *
import j02, q04, q05
from q04 import text
FILES = ['g1', 'g2', 'g3', 'g4', 'g5', 'g6', 'other']
def line(e):
    if e['op'] == 'open': return ['gr.open', hx(e['opt'])] + fields(e['D'])
    if e['op'] == 'greport': return ['gr.report', hx('meaning-groups.txt'), hx(text(e['meaning'])), hx('pattern-groups.txt'), hx(text(e['pattern']))]
    q = ['ju.report']
    for n, l in zip(FILES, e['files']): q += [hx(n + '.txt'), hx(b''.join(bytes(x) + b'\n' for x in l))]
    return q
def recorder(exe):
    def rec(inputs):
        rep = vt.run_sessions(exe, [[line(e) for e in h] for h in inputs])
        return [dict(init=0, steps=[dict(e, r=r) for e, r in zip(h, rs)]) for h, rs in zip(inputs, rep)]
    return rec
def groups(rng, names, meaning, n):
    q, left = [], list(names)
    rng.shuffle(left)
    for i in range(n):
        fam = not meaning and rng.random() < .5
        size = rng.choice([2, 2, 3, 3, 4, 6, 12])
        if meaning: pick = rng.sample(names, min(len(names), size))
        else: pick, left = left[:size], left[size:]
        if len(pick) < 2: break
        if fam: name, first, pick = pick[0] + '：' + rng.choice(['ア', 'カ、キ', 'カンジ、ケ', '']), pick[0], pick[1:]
        else: name = rng.choice(['北', '方向', '四文字語', 'カ、キ', '動物の名前'] if meaning or rng.random() < .5 else ['：ア', '：カ、キ']); first = name[0]
        if fam and len(first) > 1: continue
        if len(pick) < 1 + (not fam): continue
        num = str(rng.choice([i + 1, rng.randint(1, 400), rng.randint(1, 65535)]))
        q.append(dict(num=num, name=name, first=first, members=','.join(pick), cp=[ord(x) for x in name]))
    return q
def kanji_of(t):
    """names of the kanji of a word, for the keys (the spec checks that they are exactly those of the words)"""
    q = []
    for ch in t:
        if '\ufe00' <= ch <= '\ufe0f' and q: q[-1] += ch
        elif ch in '\u3099\u309a' or not ('\u2e80' <= ch <= '\u2eff' or '\u3007' <= ch <= '\u3007' or '\u3400' <= ch <= '\u9fff' or '\uf900' <= ch <= '\ufaff' or ch >= '\U00020000'): q.append('')
        else: q.append(ch)
    return [x for x in q if x]
def words(rng, names):
    out, seen = [], {}
    for f in range(7):
        q = []
        for _ in range(rng.choice([0, 1, 2, 5, 9]) if f < 6 else rng.choice([0, 2, 4])):
            def entry(sep):
                while True:
                    w = ''.join(rng.choice(names) for _ in range(rng.choice([2, 2, 3, 4])))
                    if rng.random() < .2: w += 'い'
                    y = ''.join(rng.choice(q05.KANA) for _ in range(rng.randint(1, 3)))
                    if seen.setdefault((w, y), f) == f: return f'{w}{sep}({y})'
            if f < 6: q.append(entry(' '))
            else: q.append(names[0] + ' ... ' + ' '.join(entry('') for _ in range(rng.choice([1, 2, 3]))))
            if rng.random() < .15: q.append(rng.choice(q))
        out.append(q)
    return out
def run(c):
    exe = h2(); rng = c.rng
    c.model('MCQuizReport', cfg='MCQuizReportT' if c.thorough else None, timeout=800)
    Ds = [j02.sequence(rng, rng.choice([20, 40, 70])) if i % 3 == 0 else G.small(rng, rng.choice([.5, 1, 1.5]), faults=False) for i in range(c.n(160, 1600))]
    loaded = vt.run_sessions(exe, [[['kd.load'] + fields(G.finish(D))] for D in Ds])
    ins, wide = [], [[99, 100]] + ([[999], [1000]] if c.thorough else [])
    for i, (D, [x]) in enumerate(zip(Ds, loaded)):
        if 'v' not in x: continue
        names = [r['n'] for r in x['v']['recs']]
        if len(names) < 3: continue
        wnames = [n for n in names if kanji_of(n) == [n]] + ['一', '龘', '𠮟', '㐀']
        sets = [words(rng, rng.sample(wnames, min(len(wnames), rng.choice([3, 10, 40])))) for _ in range(rng.randint(1, 3))]
        keys = [sorted({k for l in fs for t in l for w in t.split(' ... ')[-1].replace('(', ' (').split(' ') if w[:1] != '(' for k in kanji_of(w)}) for fs in sets]
        G.finish(D, sorted({k for q in keys for k in q} | {'一'}))
        h = [dict(op='open', D=D, opt=rng.choice(['-debug', '-debug', '-debug', '-info', '-info', '']))]
        if wide:  # the width of the numbers grows with how many groups there are
            h[0]['opt'] = '-debug'
            h += [dict(op='greport', meaning=groups(rng, names, True, n), pattern=[]) for n in wide.pop()]
        for _ in range(rng.randint(1, 4)):
            h.append(dict(op='greport', meaning=groups(rng, names, True, rng.choice([0, 1, 3, 6, 101 if i % 20 == 0 else 4])), pattern=groups(rng, names, False, rng.choice([0, 1, 3, 5]))))
        for fs, ks in zip(sets, keys):
            h.append(dict(op='jreport', files=[[list(t.encode()) for t in l] for l in fs], keys=[dict(b=list(k.encode()), n=k) for k in ks]))
        ins.append(h)
    c.check('TraceQuizReport', recorder(exe), ins, label='reports')
