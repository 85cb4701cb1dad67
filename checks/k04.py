"""K04: the kana converter program. KanaConvert.tla is the program: argument reading, strings, filter, interactive session and chart.
MCKanaConvert runs every argument list and every session up to a length and checks that settings only change by what names them; its
histories and random runs are replayed on the real class, and random runs (with -i, strings, as a filter and at a pseudo terminal) on the real binary."""
from kv import *
import term
import subprocess
from concurrent.futures import ThreadPoolExecutor
def record_with(exe):
    def rec(inputs):
        rep = vt.run_sessions(exe, [[['kc.run', hx(''.join(l + '\n' for l in e['in'])), *map(hx, e['args'])] for e in b] for b in inputs])
        return [dict(init=0, steps=[dict(e, r=r) for e, r in zip(b, rs)]) for b, rs in zip(inputs, rep)]
    return rec
def record_app(app):
    def one(e):
        try: p = subprocess.run([app, *e['args']], input=''.join(l + '\n' for l in e['in']).encode(), capture_output=True, env=vt.ENV, timeout=60)
        except subprocess.TimeoutExpired: return dict(crash='hang')
        out, err = p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
        if p.returncode not in (0, 1) or (p.returncode == 1) != (err != '') or (err and not err.endswith('\n')): return dict(crash=f'exit {p.returncode} {err[:200]}')
        return dict(v=dict(out=out, err=err[:-1]))
    def rec(inputs):
        with ThreadPoolExecutor(vt.NPROC) as ex: return [dict(init=0, steps=[dict(e, r=r) for e, r in zip(b, ex.map(one, b))]) for b in inputs]
    return rec
def record_term(app):
    def one(e):
        r = term.run([app, *e['args']], e['in'], e['echo'])
        return dict(e, r=r, **{'in': r.get('typed', e['in'])})
    def rec(inputs):
        with ThreadPoolExecutor(vt.NPROC) as ex: return [dict(init=0, steps=list(ex.map(one, b))) for b in inputs]
    return rec
def run(c):
    exe = h1(); rng = c.rng
    R = c.model('MCKanaConvert', cfg='MCKanaConvertT' if c.thorough else None, timeout=700)
    W = ['a', 'kana', 'か', 'カナ', '-', '--', '-x', '', "tsu'n", 'shi', 'ジ', 'づ', 'ōsaka', 'a b', 'おう', 'コーヒー', '漢字', 'si', 'q']
    L = W + ['c', 'f', 'h', 'k', 'n', 'r', '-k', '-h', '-r', '-K', '-H', '-R', '-?', '-f', '-ff', 'ku', 'cc']
    texts = {'a': 'kana', 't': 'sho-', 'j': 'ジョ ー'}
    runs = []
    for h in vt.prints(R, 'HIST '): runs.append(dict(args=h['args'], **{'in': [TEXT.get(x, x) for x in h['in']]}, filter=False))
    mixes = len(runs)
    def text():
        return ''.join(rng.choice([rng.choice(TAB)[rng.choice([0, 1, 2])], rng.choice(TAB)[1], rng.choice(MARKS), rng.choice(NARROW), rng.choice(OTHER[:9])]) for _ in range(rng.randint(1, 5)))
    def args(n):
        a = []
        for _ in range(rng.randint(0, n)):
            x = rng.random()
            if x < .35: a.append(rng.choice(['-h', '-k', '-r', '-H', '-K', '-R']))
            elif x < .6: a += ['-f', rng.choice(['h', 'k', 'n', 'r', 'h', 'k', 'n', 'r', 'h', 'k', 'n', 'r', 'x', '', 'hk'])]
            elif x < .66: a.append(rng.choice(['-f', '--', '-?', '-z', '-kk', '-', '---', '-h-']))
            elif x < .74: a.append(rng.choice(['-n', '-i']))
            else: a.append(text().replace('\n', '') if rng.random() < .7 else rng.choice(W))
        return a
    def inter(n):
        a = [x for _ in range(rng.randint(0, 3)) for x in rng.choice([['-h'], ['-k'], ['-r'], ['-H'], ['-K'], ['-R'], ['-f', 'h'], ['-f', 'k'], ['-f', 'n'], ['-f', 'r']])]
        a.insert(0 if rng.random() < .5 or (a and '-f' in a) else len(a), '-i')
        lines = []
        for _ in range(rng.randint(0, n)):
            x = rng.random()
            lines += [rng.choice(L)] if x < .5 else ['f', rng.choice(['h', 'k', 'n', 'r'])] if x < .65 else [text().replace('\n', '')]
        return a, lines
    app = [dict(args=[m], filter=True, **{'in': []}) for m in ('-p', '-m')]
    for _ in range(c.n(2500, 40000)):
        x = rng.random()
        if x < .5: runs.append(dict(args=args(7), filter=False, **{'in': [rng.choice(L) for _ in range(rng.randint(0, 3))]}))
        else:
            a, l = inter(14); runs.append(dict(args=a, filter=False, **{'in': l}))
    for _ in range(c.n(400, 3000)):
        x = rng.random()
        if x < .3: app.append(dict(args=args(6), filter=True, **{'in': []}))
        elif x < .45:
            a, l = inter(8); l = [y for y in l if y != 'f'] # (at the real standard input the prompt reads the terminal)
            app.append(dict(args=a, filter=True, **{'in': l}))
        else:
            a = [y for y in args(4) if y.startswith('-') and y not in ('-i',)]
            a = [z for y in a for z in ([y, rng.choice('hknr')] if y == '-f' else [y])]
            app.append(dict(args=a, filter=True, **{'in': [rng.choice(L + [text().replace('\n', '')] * 9) for _ in range(rng.randint(0, 6))]}))
    for e in app: e['args'] = [x for x in e['args'] if '\0' not in x]
    for e in runs: e['args'] = [x for x in e['args'] if '\0' not in x]
    c.cov['model_histories_replayed'] = mixes
    c.check('TraceKanaConvert', record_with(exe), batch(runs, 60), label='runs of the class')
    c.check('TraceKanaConvert', record_app(os.path.join(vt.build('kanaConvert'), 'kanaConvert')), batch(app, 40), label='runs of the binary')
    tty = []
    for _ in range(c.n(120, 1200)):
        if rng.random() < .2: tty.append(dict(args=[x for x in args(4) if '\0' not in x], echo=rng.random() < .5, **{'in': []})); continue
        a, l = inter(10)
        l = [z for y in l for z in ([y, *rng.choice([[], [], [rng.choice('xF '), ''], ['', 'q', '/']])] if y == 'f' else [y])]
        if rng.random() < .5: l += ['h', 'q']
        tty.append(dict(args=a, echo=rng.random() < .5, **{'in': [''.join(x for x in y if ord(x) > 31 and ord(x) != 127) for y in l] + ['h']}))
    c.check('TraceKanaConvert', record_term(os.path.join(vt.build('kanaConvert'), 'kanaConvert')), batch(tty, 20), label='sessions at a terminal')
# texts of the model's placeholders (its states hold ASCII only)
TEXT = {'t1': 'shizuku', 't2': 'づラーji', 't3': 'こう'}
