"""S02: the statistics report. Stats.tla gives the report of files and directories from the loaded data (KanjiData.tla) and the counts of
Utf8Count.tla; MCStats checks that the order of the entries is a strict total order and that totals per kind and per type add up for every small
combination of counts, frequencies and types. Generated data directories are loaded, texts of their kanji (with equal counts and frequencies),
of other kanji, kana, letters and unknown characters are reported by the real class (single files, trees, options, missing files) and every
line is compared (also the output, errors and exit status of kanjiStats itself); the order of the entries is compared for all pairs of many counts.
StatsThreads.tla gives the counting tasks that run at the same time (what each reads and writes): MCStatsThreads shows that every interleaving ends in the
same report, and the real program, built with the race monitor, is run to see that no two tasks touch the same memory when one writes it."""
from kd import *
import s01, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
OTHER = list('かなアーｶＡ１、。→★Жαa ') + ['（かな）', '漢（かん）', '（', '）', '\ufff0', '가', '龘', '𪜀', '㐂', 'は\u309a', '𠮟', '\ue000']
def text(rng, names):
    pick = rng.sample(names, min(len(names), rng.choice([3, 8, 20])))
    q = [rng.choice(pick) if rng.random() < .7 else rng.choice(OTHER) for _ in range(rng.choice([0, 4, 15, 40]))]
    if rng.random() < .5: q += [x for x in pick if rng.random() < .7] * rng.choice([1, 1, 2])
    rng.shuffle(q)
    return ''.join(q).encode()
def leaf(rng, names, nm):
    q = [text(rng, names) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < .05: q.append(rng.choice(s01.BAD))
    return dict(k='f', name=nm, lines=q, nl=True, ro=False)
def name(rng, used):
    while True:
        n = ''.join(rng.choice(['a', 'b', '.', '漢', 'か', '漢（かん）', 'Ж']) for _ in range(rng.randint(1, 3))).encode()
        if n not in used and n not in (b'.', b'..'): used.add(n); return n
def tree(rng, names, nm, depth):
    used = set()
    return dict(k='d', name=nm, sub=[tree(rng, names, name(rng, used), depth - 1) if depth and rng.random() < .3 else leaf(rng, names, name(rng, used)) for _ in range(rng.randint(0, 3))])
def texts(n):
    yield n['name'].decode()
    for l in n.get('lines', []):
        try: yield l.decode()
        except UnicodeDecodeError: pass
    for c in n.get('sub', []): yield from texts(c)
def run_event(rng, names):
    used, args, parts, roots = set(), [], [], []
    v = rng.random() < .25
    none = lambda a: (args.append(a), parts.append(dict(k='missing')))
    if v: none('-v')
    if rng.random() < .4: none('-b')
    if rng.random() < .1: none('--')
    x = rng.random()
    if x < .04: none(rng.choice(['-h', '-x', '-bv', '-', '--x', '-B']))
    if x > .97: none(rng.choice(['-info', '-debug'])) # (skipped: they belong to the data)
    if x > .98: none('-data'); none('x')
    for _ in range(rng.choice([0] if x < .04 else [1, 1, 1, 2])):
        if rng.random() < .03: args.append('@/' + rng.choice(['none', 'x/y', '漢'])); parts.append(dict(k='missing')); continue
        nm = name(rng, used)
        r = leaf(rng, names, nm) if v or rng.random() < .7 else tree(rng, names, nm, 2)
        roots.append(r)
        slash = r['k'] == 'd' and rng.random() < .4
        c = s01.clean(r)
        if slash: c['name'] = []
        args.append('@/' + nm.decode() + ('/' if slash else '')); parts.append(dict(k='file', root=c, shown=list(nm)))
        if v and rng.random() < .1: none('-b')
    return dict(op='run', args=args, parts=parts, roots=roots)
def chars(ts):
    s = set()
    for t in ts:
        s.update(t); s.update(t[i:i + 2] for i in range(len(t) - 1) if '\ufe00' <= t[i + 1] <= '\ufe0f')
    return s
def line(e):
    if e['op'] == 'data': return (['gr.open', hx(e['opt'])] if e['opt'] else ['kd.load']) + fields(e['D'])
    if e['op'] == 'order': return ['st.order'] + [f for x in e['a'] for f in (x['c'], hx(x['t']))]
    return ['st.run', len(e['args'])] + [hx(a) for a in e['args']] + [f for r in e['roots'] for f in s01.fields(r)]
def event(e, r):
    if e['op'] == 'data': return dict(e, r=dict(v=r['v']['errs']) if 'v' in r and not e['opt'] else r)
    return dict({k: v for k, v in e.items() if k != 'roots'}, r=r)
def recorder_st(exe):
    def rec(inputs):
        rep = vt.run_sessions(exe, [[line(e) for e in h] for h in inputs])
        return [dict(init=0, steps=[event(e, r) for e, r in zip(h, rs)]) for h, rs in zip(inputs, rep)]
    return rec
def record_prog(app, exe):
    def put(n, at):
        p = os.path.join(at, n['name'])
        if n['k'] == 'd':
            os.makedirs(p)
            for c in n['sub']: put(c, p)
        else: open(p, 'wb').write(b'\n'.join(n['lines']) + (b'\n' if n['lines'] else b''))
    def one(D, e):
        d = tempfile.mkdtemp(dir=vt.workdir())
        try:
            for p, t in G.files(D).items():
                os.makedirs(os.path.dirname(f'{d}/data/{p}'), exist_ok=True); open(f'{d}/data/{p}', 'wb').write(t if isinstance(t, bytes) else t.encode())
            os.mkdir(d + '/@')
            for r in e['roots']: put(r, os.fsencode(d + '/@'))
            try: p = subprocess.run([app, '-data', 'data', *e['args']], capture_output=True, env=dict(vt.ENV, TSAN_OPTIONS='halt_on_error=1:exitcode=66'), timeout=120, cwd=d, stdin=subprocess.DEVNULL)
            except subprocess.TimeoutExpired: return dict(crash='hang')
            if p.returncode not in (0, 1): return dict(crash=f'exit {p.returncode} ' + p.stderr.decode('utf-8', 'replace').strip()[:300])
            return dict(v=dict(out=list(p.stdout), err=p.stderr.decode('utf-8', 'replace'), code=p.returncode))
        finally: shutil.rmtree(d)
    def rec(inputs):
        base = recorder_st(exe)([h[:1] for h in inputs])
        with ThreadPoolExecutor(vt.NPROC) as ex: got = [list(ex.map(lambda e: one(h[0]['D'], e), h[1:])) for h in inputs]
        for b, h, rs in zip(base, inputs, got): b['steps'] += [event(e, r) for e, r in zip(h[1:], rs)]
        return base
    return rec
def orders(rng, names):
    q = [dict(c=rng.choice([1, 1, 2, 3, 10]), t=t) for t in rng.sample(names, min(len(names), 9)) + ['龘', '㐂', '𪜀']]
    return dict(op='order', a=[dict(x, b=list(x['t'].encode())) for x in q])
def run(c):
    exe = h2(); rng = c.rng
    c.model('MCStats', cfg='MCStatsT' if c.thorough else 'MCStats', timeout=700)
    ins = []
    for _ in range(c.n(300, 3000)):
        D = G.small(rng, rng.choice([.3, .6, 1]), faults=False)
        names = [n for n in sorted(G.all_names(D))]
        names += [x + '\ufe00' for x in rng.sample(names, 2) if len(x) == 1]
        runs = [run_event(rng, names) for _ in range(rng.randint(1, 4))]
        used = chars([t for e in runs for r in e['roots'] for t in texts(r)]) | {'龘', '㐂', '𪜀'} | set(names)
        G.finish(D, used)
        for e in runs: e['tab'] = [dict(b=list(t.encode()), t=t) for t in sorted(chars([t for r in e['roots'] for t in texts(r)]))]
        ins.append([dict(op='data', D=D, opt=rng.choice(['-debug', '-info'] + [''] * 6))] + [x for e in runs for x in (e, orders(rng, names))])
    c.check('TraceStats', recorder_st(exe), ins, label='reports')
    # the program itself, on directories that load without a message
    app = os.path.join(vt.build('kanjiStats'), 'kanjiStats')
    ok = [h for h in ins if not h[0]['opt']]
    ok = [h for h, [x] in zip(ok, vt.run_sessions(exe, [[line(h[0])] for h in ok])) if 'v' in x and not x['v']['errs']][:c.n(40, 400)]
    ins = [[h[0]] + [dict(e, op='prog') for e in h[1:] if e['op'] == 'run' and not any(a in ('-info', '-debug', '-data') for a in e['args'])] for h in ok]
    c.check('TraceStats', record_prog(app, exe), ins, label='kanjiStats')
    # the counts run at the same time: no two of them may touch the same memory when one writes it (StatsThreads.tla)
    c.model('MCStatsThreads', cfg='MCStatsThreadsT' if c.thorough else 'MCStatsThreads')
    app = os.path.join(vt.build('kanjiStats.ts'), 'kanjiStats.ts')
    if b'FATAL: ThreadSanitizer' not in subprocess.run([app], capture_output=True, timeout=60, stdin=subprocess.DEVNULL).stderr:
        big = []
        for h in ins[:c.n(12, 120)]:
            e = [dict(e) for e in h[1:]]
            big.append([h[0]] + e)
        c.check('TraceStats', record_prog(app, exe), big, label='concurrent counts')
    else: print('the race monitor does not start here', file=sys.stderr)
