"""J02: lookups. On generated directories every name (with and without variation selector, compatibility characters, names not in the data),
every frequency around the list's ends, every dictionary number around those in use is looked up and compared with the specification's state
after the same load; loads of different directories follow each other in one process. Large frequency lists (up to 2 501 entries, all buckets)
and the shipped files (with generated Unicode data) are looked up too."""
from kd import *
MORO = ['1', '2', '3', '2P', "2'", "2''", '2PP', 'H2', '3P', '0', '007', '', 'P', 'x', '65535', '65536', '0P', 'H0']
def queries(rng, D, n):
    names = [x['n'] for x in D['cps']]
    q = [dict(op='find', n=x) for x in names]
    k = len(D['freq'])
    q += [dict(op='freq', i=i) for i in sorted(set([0, 1, k - 1, k, k + 1, k + 2, k + 100, 2501, 65535]) & set(range(65536)) | set(rng.sample(range(k + 1), min(k + 1, 6))))]
    q += [dict(op='list', i=i) for i in (0, 1, 9, 10, 11)]
    m = sorted({r['MorohashiId'] for r in D['ucd']})
    q += [dict(op='moro', t=t) for t in rng.sample(m, min(len(m), 8)) + MORO]
    ids = sorted({int(i) for r in D['ucd'] for i in r['NelsonIds'].split(',') if i})
    q += [dict(op='nelson', i=i) for i in sorted(set(rng.sample(ids, min(len(ids), 10)) + [0, 1, 31, 5446, 65535]))]
    return q
def sequence(rng, n):
    """a directory with a frequency list of n entries, every third of them a jouyou kanji"""
    D = dict(radicals=G.RADN[:3], freqr=[], jouyou=[], linked=[], jinmei=[], extra=[], levels=[[] for _ in G.LEVELS], kyus=[[] for _ in G.KYUS], freq=[])
    names = [chr(0x4e00 + i) for i in range(n + 20)]; rng.shuffle(names)
    D['ucd'] = [G.urow(rng, x, 3, joyo=i % 3 == 0) for i, x in enumerate(names)]
    D['jouyou'] = [dict(Number=str(i + 1), Name=x, Radical=G.RADN[0], OldNames='', Year='', Strokes='3', Grade='S', Meaning='m', Reading='ア') for i, x in enumerate(names) if i % 3 == 0]
    D['freq'] = [dict(n=x, pos=i + 1) for i, x in enumerate(names[:n])]
    return D
def partial(rng, D, files, size, most):
    """(files, steps): the load seen through parts of its names, with lookups of names and positions of each part"""
    steps = []
    P = G.parts(D, size); rng.shuffle(P)
    for S in P[:most]:
        p = G.project(D, S)
        steps.append(dict(op='load', D=p))
        steps += [dict(op='find', n=x) for x in rng.sample(sorted(S), min(len(S), 30))]
        end = len(D['freq'])
        steps += [dict(op='freq', i=i) for i in [x['pos'] for x in p['freq']] + [0, end, end + 1, end + 250, 65535]]
    return files, steps
def rec_partial(exe):
    def rec(inputs):
        rep = vt.run_sessions(exe, [[['kd.load'] + [hx(x) for pt in f.items() for x in pt]] + [['kd.part'] + [hx(x['n']) for x in e['D']['cps']] if e['op'] == 'load' else LINE[e['op']](e) for e in h] for f, h in inputs])
        return [dict(init=0, steps=[dict(e, r=r if 'v' in rs[0] else rs[0]) for e, r in zip(h, rs[1:])]) for (f, h), rs in zip(inputs, rep)]
    return rec
def run(c):
    exe = h2(); rng = c.rng
    ins = []
    for _ in range(c.n(350, 6000)):
        h = []
        for _ in range(rng.choice([1, 1, 2])):
            D = G.small(rng, rng.choice([.2, .5, 1, 1, 1.5]), faults=rng.random() < .3)
            names = sorted(G.all_names(D))
            more = [x + rng.choice('\ufe00\ufe01\ufe0f') for x in rng.sample(names, min(len(names), 8)) if len(x) == 1] + ['龍', '𪚲', 'あ']
            G.finish(D, more)
            h += [dict(op='load', D=D)] + queries(rng, D, 0)
        ins.append(h)
    c.check('TraceKanjiData', recorder_kd(exe), ins, label='lookups')
    # frequency lists around the sizes of the buckets
    ins = []
    for n in [249, 250, 251, 1000, 2249, 2250, 2251, 2500, 2501, 2750, 2751, 3000] + ([1, 2, 5000, 10000] if c.thorough else []):
        D = sequence(rng, n); ins.append(partial(rng, D, G.files(D), 60, c.n(3, 40)))
    c.check('TraceKanjiData', rec_partial(exe), ins, label='long lists')
    # the shipped files
    ins = []
    for _ in range(c.n(6, 16)):
        D, f = G.shipped(rng, vt.REPO); ins.append(partial(rng, D, f, 100, c.n(5, 90)))
    c.check('TraceKanjiData', rec_partial(exe), ins, label='shipped files')
