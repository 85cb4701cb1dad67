"""Q01: starting the quiz program. Quiz.tla (ParseArgs, Start, Chosen, DetailText) says what each command line does, which prompts follow and what is
printed. MCLaunch checks on every list of up to three arguments out of 27 kinds that at most one mode and type are taken, that the order of options
does not matter and that everything else is refused. Those lists (of one and two arguments; sampled for three) and random ones, with prompts
answered in every way, with kanji named by character, frequency, Morohashi, Nelson and Unicode numbers, run in the real launcher over generated
data, groups and compound words; a sample runs in the real kanjiQuiz binary with -data. All that is printed, the error and the input left unread are compared."""
from qz import *
import subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
BAD = ['-', '', '-x', '-H', '-hs', '-sr', '-s1', '-f10', '-fa', '-f/', '-f:', '-g0', '-g7', '-gS', '-gss', '-k', '-kd', '-k10', '-kA', '-l0', '-l6', '-m0', '-m5', '-p5', '-p0', '-f-1', '--help', '---',
       '-r-', '-t+', '-r+3', '-t-3', '-r-0', '-t00', '-r007', '-t-1x', '-r1x', '-rx', '-r 1', '-t65535', '-r65536', '-t99999999999999999999', '-r-65535', '-t-65536', '-r--1', '-t+-1', '-r1-', '-é', 'é', '-あ', 'あ', 'ab', '１', '1a', '-1', '+1']
def kanji_arg(rng, D, names, hots=()):
    u = rng.choice(D['ucd']) if D['ucd'] else dict(Name='一', MorohashiId='1', NelsonIds='1')
    x = rng.random()
    if x < .15 and hots: return rng.choice(hots)
    if x < .4: return rng.choice(names) if rng.random() < .8 else u['Name']
    if x < .5: return str(rng.choice([0, 1, 2, 3, len(D['freq']), len(D['freq']) + 1, rng.randint(1, len(D['freq']) + 1), 2501, 65535, 65536])).zfill(rng.choice([1, 1, 1, 4]))
    if x < .65: return 'm' + rng.choice([u['MorohashiId'] or '0', u['MorohashiId'] or '5', '1', '2P', '00', '', 'x', 'H1', '65536', '0', "3''"])
    if x < .8: return 'n' + rng.choice((u['NelsonIds'].split(',') if u['NelsonIds'] else ['9']) * 3 + ['0', '1', '', 'x', '-1', '65535', '65536', '007'])
    if x < .93: return 'u' + rng.choice([f'{ord(u["Name"]):04X}', f'{ord(u["Name"]):04x}', f'{ord(u["Name"]):05X}', '4e00', '4E0', '04e00', 'g000', '', '3042', '2000b', '2A6D6', '30000', '000041', ' 4e00', '+4e00', '0x4e00', '1F600', '0041'])
    return rng.choice(BAD)
CPS = [0x4e00, 0x3042, 0x2000b, 0x2a6d6, 0x41, 0x1f600]
def mode(rng): return '-' + rng.choice('rt') + rng.choice(['', '', '0', '1', '2', '3', '-1', '-2', '7', '+1', '500'])
def kind(rng):
    k = rng.choice('fgklmp')
    return '-' + k + rng.choice(['', '', rng.choice({'f': '0019', 'g': '1236s', 'k': '1289abc', 'l': '12345', 'm': '1234', 'p': '1234'}[k])])
def answers(rng, n):
    """input lines: some for the prompts, then anything"""
    out = []
    for _ in range(n):
        x = rng.random()
        out.append('' if x < .35 else rng.choice('rtbefgklmps0123456789ac') if x < .7 else rng.choice('-.,/*\'') if x < .93 else rng.choice(['x', 'rr', ' ', 'é', 'あ', 'Q', '?', '10', ' r', '\t', '//']))
    return out
def args(rng, D, names, hots=()):
    """a command line, and whether a quiz may follow it"""
    x = rng.random()
    if x < .5:
        q = [f(rng) for f in (mode, kind) if rng.random() < .7]
        if rng.random() < .4: q.append('-s')
        if rng.random() < .1: q.append(mode(rng))
        if rng.random() < .1: q.append(kind(rng))
        if rng.random() < .15: q += rng.choice([['-info'], ['-data', 'x'], ['-data', '-x'], ['-data', '-h']])
        if rng.random() < .05: q.append('--')
        if rng.random() < .05: q.append(rng.choice(BAD))
        rng.shuffle(q); return q
    if x < .9:
        q = [rng.choice(['-s', mode(rng), kind(rng), '--', '-info'])] if rng.random() < .2 else []
        if rng.random() < .2: q.append('--')
        return q + [kanji_arg(rng, D, names, hots)] + ([rng.choice(['x', '-h', '-r', mode(rng)])] if rng.random() < .15 else [])
    if x < .95: return [rng.choice(BAD + ['-h']) for _ in range(rng.randint(1, 2))]
    return [rng.choice(['-s', '-r', '-t0', '-h', '--', '-g1', '-m', '-info', rng.choice(BAD)]) for _ in range(rng.randint(0, 5))]
def ends(q):
    """the launcher shows help or a kanji for these arguments (or refuses them)"""
    i, ended = 0, False
    while i < len(q):
        t = q[i]; i += 1
        if t == '-data': i += 1
        elif t in ('-debug', '-info'): pass
        elif ended or not t.startswith('-') or len(t.encode()) < 2 or t == '-h': return True
        elif t == '--': ended = True
    return False
def starts(rng, n): return [start(*rng.choice([('', ''), ('f', '0'), ('g', 's'), ('g', '1'), ('k', 'a'), ('l', '5'), ('m', '4'), ('p', '4'), ('g', ''), ('p', '')]), 0, rng.random() < .3, rng.random() < .5) for _ in range(n)]
def session(rng, L, D, names):
    q = args(rng, D, names, hot(L['words']))
    s = [] if ends(q) else starts(rng, rng.choice([0, 0, 1, 1]))
    return run_event(q, answers(rng, rng.choice([0, 1, 2, 4, 6, 9])), s)
# ---- the program itself
NOTTY = ('tcsetattr()',) # (input is a pipe here)
def record_app(app, exe):
    def one(D, L, e):
        d = tempfile.mkdtemp(dir=vt.workdir())
        try:
            for p, t in G.files(D).items():
                os.makedirs(os.path.dirname(f'{d}/data/{p}'), exist_ok=True); open(f'{d}/data/{p}', 'wb').write(t if isinstance(t, bytes) else t.encode())
            q = [vt.unhx(x) for x in list_fields(L)]
            for p, t in zip(q[::2], q[1::2]):
                f = f"{d}/data/{'' if p.endswith(b'groups.txt') else 'jukugo/'}{p.decode()}"; os.makedirs(os.path.dirname(f), exist_ok=True); open(f, 'wb').write(t)
            try: p = subprocess.run([app, '-data', d + '/data', *[x['t'] for x in e['args']]], input=b''.join(l.encode() or b'\n' for l in e['lines']), capture_output=True, env=vt.ENV, timeout=60, cwd=d)
            except subprocess.TimeoutExpired: return dict(crash='hang')
            err = [l for l in p.stderr.decode('utf-8', 'replace').split('\n') if not l.startswith(NOTTY)]
            if p.returncode not in (0, 1) or (p.returncode == 1) != (len(err) > 1) or err[-1]: return dict(crash=f'exit {p.returncode} ' + '/'.join(err)[-300:])
            return dict(v=dict(out=p.stdout.decode('utf-8', 'replace'), fail='\n'.join(err[:-1])))
        finally: shutil.rmtree(d)
    def rec(inputs):
        base = recorder_qz(exe)([h[:2] for h in inputs])
        R = [recs_of(r[0]) for r in vt.run_sessions(exe, [[line(h[0])] for h in inputs])]
        with ThreadPoolExecutor(vt.NPROC) as ex: got = [list(ex.map(lambda e: one(h[0]['D'], h[1], e), h[2:])) for h in inputs]
        for b, h, rs, recs in zip(base, inputs, got, R):
            for e, r in zip(h[2:], rs):
                x = dict(op='run', args=e['args'], starts=[], term=True, h=hints(r['v']['out'], recs) if 'v' in r else [])
                x['in'] = [list(l.encode()) for l in e['lines']]
                b['steps'].append(dict(x, r=r))
        return base
    return rec
def run(c):
    exe = h2(); rng = c.rng
    H = vt.prints(c.model('MCLaunch', cfg='MCLaunchT' if c.thorough else None, timeout=700), 'HIST ')
    c.cov['model_histories_replayed'] = len(H)
    ctx, names = context(rng)
    ins = [ctx + [run_event(h['args'], ['', '', '', '', '1', '.', '/'], [] if h['do'] != 'quiz' else starts(rng, rng.choice([0, 1]))) for h in b] for b in chunks(H, 100)]
    c.check('TraceQuiz', recorder_qz(exe), ins, label='command lines of the model')
    ins = []
    for i in range(c.n(45, 900)):
        ctx, names = context(rng, 'big' if i % 5 == 0 else 'small', [chr(x) for x in CPS])
        ins.append(ctx + [session(rng, ctx[1], ctx[0]['D'], names) for _ in range(28)])
    c.check('TraceQuiz', recorder_qz(exe), ins, label='random command lines')
    app = os.path.join(vt.build('kanjiQuiz'), 'kanjiQuiz')
    ins = []
    for i in range(c.n(12, 120)):
        while True:
            ctx, names = context(rng, 'small', [chr(x) for x in CPS])
            r = recorder_qz(exe)([ctx])[0]['steps']
            if all('v' in x['r'] for x in r) and not r[0]['r']['v'] and not r[1]['r']['v']['errs']: break
        k = [e for e in (dict(session(rng, ctx[1], ctx[0]['D'], names), starts=[], term=True) for _ in range(16)) if not any(x['t'] in ('-data', '-info', '-debug') for x in e['args'])]
        ins.append(ctx + [dict(e, lines=[l for l in e['lines'] if len(l.encode()) <= 1]) for e in k])
    c.check('TraceQuiz', record_app(app, exe), ins, label='kanjiQuiz')
