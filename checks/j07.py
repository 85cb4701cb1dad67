"""J07: options and finding the data. Options.tla gives the directory, the mode and the program's own arguments; MCOptions checks for every list of a few
arguments and for trees of folders that each argument has one role and that the nearest valid directory is found. Those and random lists (all numbers
of files, relative and absolute paths, programs in and outside the tree) are given to the real functions in scratch trees."""
from kd import *
def show(p): return '/'.join(['@'] + p)
def line(e):
    a = [hx(x) for x in e.get('args', [])]
    if e['op'] == 'tree':
        q = ['op.tree', len(e['dirs'])]
        for d in e['dirs']: q += [hx(show(d['p'])), d['txt']]
        return q + [hx(show(f)) for f in e['files']]
    if e['op'] == 'dir': return ['op.dir', hx(show(e['cwd']))] + a
    if e['op'] == 'new': return ['op.new', e['argc'], int(e['given']), int(e['int'])]
    if e['op'] in ('next', 'at'): return ['op.' + e['op'], e['i']] + a
    return ['op.' + e['op']] + a
def recorder(exe):
    def rec(inputs):
        rep = vt.run_sessions(exe, [[line(e) for e in h] for h in inputs])
        return [dict(init=0, steps=[dict(e, r=r) for e, r in zip(h, rs)]) for h, rs in zip(inputs, rep)]
    return rec
D = lambda p, n: dict(p=p.split('/') if p else [], txt=n)
BASE = [D('', 0), D('g', 10), D('b', 9), D('a', 0), D('a/bin', 2), D('c', 0), D('c/bin', 10)]
DATAS = [D('data', 10), D('a/data', 10), D('a/bin/data', 10), D('c/data', 11), D('c/data', 10), D('data', 9)]
FOLDERS = [[], ['a'], ['a', 'bin'], ['c']]
def trees(rng):
    dirs = {(): 0}
    for _ in range(rng.randint(1, 9)):
        p = rng.choice(list(dirs))
        if len(p) < 4: dirs[p + (rng.choice(['a', 'b', 'data', 'data', 'data.txt', 'Data', '漢']),)] = rng.choice([0, 9, 10, 10, 10, 11, 12])
    dirs = {p: n for p, n in dirs.items() if not any(x == 'data.txt' for x in p)}
    return dict(op='tree', dirs=[dict(p=list(p), txt=n) for p, n in sorted(dirs.items())], files=[list(p) + ['w'] for p in sorted(dirs)])
def run(c):
    exe = h2(); rng = c.rng
    H = vt.prints(c.model('MCOptions', cfg='MCOptionsT' if c.thorough else None, timeout=800), 'HIST ')
    c.cov['model_histories_replayed'] = len(H)
    by = {}
    for h in H: by.setdefault(tuple(sorted(h['t'])), []).append(h)
    ins = []
    for t, hs in by.items():
        tree = dict(op='tree', dirs=BASE + [DATAS[i - 1] for i in t if not (i == 5 and 4 in t)], files=[['w']])
        for b in chunks(hs, 100):
            q = [tree]
            for h in b:
                q += [dict(op='dir', cwd=FOLDERS[h['c'] - 1], args=h['a']), dict(op='mode', args=h['a']), dict(op='own', args=h['a'])]
                if h['k'] == 0: q += [dict(op=o, args=h['a'], i=i) for o in ('next', 'at') for i in range(len(h['a']) + 2)]
            ins.append(q)
    c.check('TraceOptions', recorder(exe), ins, label='lists of the model')
    ins = []
    for _ in range(c.n(150, 2000)):
        t = trees(rng)
        ps = [d['p'] for d in t['dirs']]
        def path(cwd, ends=['', '', '/', '/.']):
            p = rng.choice(ps); x = rng.random()
            if x < .1: p = p + [rng.choice(['w', 'none', 'data'])]
            if x < .5: return show(p) + rng.choice(ends)
            n = 0
            while n < len(cwd) and n < len(p) and cwd[n] == p[n]: n += 1
            return '/'.join(['..'] * (len(cwd) - n) + p[n:]) or '.'
        q = [t]
        for _ in range(25):
            cwd = rng.choice(ps)
            args = [] if rng.random() < .05 else [rng.choice(['prog', './prog', '', path(cwd, ['']) + '/prog', path(cwd, ['']) + '/prog', show(rng.choice(ps)) + '/bin/prog'])]
            if args:
                for _ in range(rng.choice([0, 0, 1, 2, 4])):
                    args += rng.choice([['-data', path(cwd)], ['-data'], ['-debug'], ['-info'], ['x'], ['-x'], ['--'], ['data'], [path(cwd)], ['-Data', 'x'], ['-data='], [''], ['-datax'], ['-d']])
            q += [dict(op='dir', cwd=cwd, args=args), dict(op='mode', args=args), dict(op='own', args=args), dict(op=rng.choice(['next', 'at']), args=args, i=rng.choice([0, 1, 2, 3, 9, 65535]))]
        ins.append(q)
    c.check('TraceOptions', recorder(exe), ins, label='random lists')
    nums = ['0', '1', '2', '-1', '-2147483648', '2147483647', '65534', '65535', '65536', '65537', '131072'] + [str(rng.randint(-10**6, 10**6)) for _ in range(20)]
    c.check('TraceOptions', recorder(exe), [[dict(op='new', argc=n, given=g, int=i) for n in nums for g in (False, True) for i in (False, True) if i or 0 <= int(n) <= 65535]], label='argument counts')
