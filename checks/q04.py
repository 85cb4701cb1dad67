"""Q04: group files. Groups.tla loads the rows one after another (KanjiData.tla gives the kanji); MCGroups checks for every pair of rows over a few
names and member lists that the map is the inverse of the members, that a kanji is mapped to one pattern group and that repeats are
reported. Those files and random ones (all kinds, compatibility and supplementary characters, groups of 2 to 58 and more members, every
kind of broken row, bad numbers) and blocks of the shipped files are loaded by the real class over generated data; groups, maps, messages and errors are compared."""
from kd import *
import j02
NAMES = ['北', '方向', 'ア', 'カ、キ', '：ア', '：カ、キ']
def row(rng, names, used):
    fam = rng.random() < .4
    size = rng.choice([2, 2, 3, 3, 5, 8, 57, 58, 58, 59]) if len(names) > 60 else rng.choice([1, 2, 2, 3, 3, 4, 6])
    pick = rng.sample(names, min(len(names), size + 1))
    if rng.random() < .8: # mostly disjoint groups
        pick = [n for n in pick if n not in used] or pick
    mem = pick[:size]
    first = pick[-1]
    if fam: name = first + '：' + rng.choice(['ア', 'カ、キ', ''])
    else:
        name = rng.choice(NAMES); first = name[0]
    x = rng.random()
    if x < .06: mem = mem + [rng.choice(mem)]
    elif x < .08: mem = mem + rng.sample(mem, min(2, len(mem)))
    elif x < .1: mem = mem[:1]
    elif x < .12: mem = []
    elif x < .15: mem.insert(rng.randint(0, len(mem)), rng.choice(['', '龘', 'あ', '㐂']))
    elif x < .16: name = ''; first = ''
    elif x < .18: name = rng.choice(['x', '北x', '北 ', ' 北', '北1：ア']); first = name[0]
    used.update(mem)
    m = ','.join(mem) + (',' if rng.random() < .02 else '')
    num = rng.choice(['', 'x', '0', '65535', '65536', '-1', '007', '１']) if rng.random() < .06 else str(rng.randint(1, 400))
    return dict(num=num, name=name, first=first, members=m)
def text(rows): return 'Number\tName\tMembers\n' + ''.join(f"{w['num']}\t{w['name']}\t{w['members']}\n" for w in rows)
def line(e):
    if e['op'] == 'data': return ['kd.load'] + fields(e['D'])
    return ['gr.load', hx('meaning-groups.txt'), hx(text(e['meaning'])), hx('pattern-groups.txt'), hx(text(e['pattern']))]
def recorder_gr(exe):
    def rec(inputs):
        rep = vt.run_sessions(exe, [[line(e) for e in h] for h in inputs])
        return [dict(init=0, steps=[dict(e, r=dict(v=r['v']['errs']) if e['op'] == 'data' and 'v' in r else r) for e, r in zip(h, rs)]) for h, rs in zip(inputs, rep)]
    return rec
FORMS = [('', ''), ('北', '北'), ('北：ア', '北'), ('：ア', '：'), ('ア', 'ア'), ('南：イ', '南'), ('北a', '北'), ('杏：ア', '杏'), ('東：', '東')]
MEM = ['', '北', '北,南', '南,東', '北,南,東', '南,北', '北,南,北', '北,北,南,南', '北,', '北,,南', '杏,北', '東,南,杏,西']
def run(c):
    exe = h2(); rng = c.rng
    H = vt.prints(c.model('MCGroups', cfg='MCGroupsT' if c.thorough else 'MCGroups', timeout=800), 'HIST ')
    c.cov['model_histories_replayed'] = len(H)
    # the model's files over a directory with those kanji (西 is absent)
    D = j02.sequence(rng, 4)
    for r, n in zip(D['ucd'][:3], '北南東'):
        o = r['Name']
        r['Name'], r['Code'] = n, G.U.hexc(n)
        for j in D['jouyou']:
            if j['Name'] == o: j['Name'] = n
        for f in D['freq']:
            if f['n'] == o: f['n'] = n
    D = G.finish(D, list('杏西ア：'))
    W = lambda a, i: dict(num=str(i), name=FORMS[a[0] - 1][0], first=FORMS[a[0] - 1][1], members=MEM[a[1] - 1])
    half = lambda h: [W(h[0], 1), W(h[1], 2)]
    ins = [[dict(op='data', D=D)] + [x for h in b for x in (dict(op='groups', meaning=[], pattern=half(h)), dict(op='groups', meaning=half(h), pattern=[]))] for b in chunks(H, 60)]
    c.check('TraceGroups', recorder_gr(exe), ins, label='files of the model')
    ins = []
    for i in range(c.n(260, 4000)):
        D = j02.sequence(rng, 70) if i % 6 == 0 else G.small(rng, rng.choice([.5, 1, 1.5]), faults=False)
        names = sorted(G.all_names(D))
        G.finish(D, ['龘', 'あ', '㐂', '北', '方'])
        h = [dict(op='data', D=D)]
        for _ in range(rng.randint(1, 8)):
            um, up = set(), set()
            h.append(dict(op='groups', meaning=[row(rng, names, um) for _ in range(rng.choice([0, 1, 1, 2, 4]))], pattern=[row(rng, names, up) for _ in range(rng.choice([0, 1, 2, 3, 5]))]))
        ins.append(h)
    c.check('TraceGroups', recorder_gr(exe), ins, label='random files')
    # blocks of the shipped files, over the shipped kanji they name
    D0, _ = G.shipped(rng, vt.REPO); comp = G.components(D0); near = {}
    for n, x in comp.items(): near.setdefault(x, set()).add(n)
    def block(p, n):
        q = [l.rstrip('\n').split('\t') for l in open(f'{vt.REPO}/data/{p}', encoding='utf-8').readlines()[1:]]
        i = rng.randrange(len(q))
        return [dict(num=a, name=b, first=b[0], members=m) for a, b, m in q[i:i + n]]
    ins = []
    for _ in range(c.n(12, 200)):
        e = dict(op='groups', meaning=block('meaning-groups.txt', 2), pattern=block('pattern-groups.txt', rng.choice([8, 20])))
        S = {x for w in e['meaning'] + e['pattern'] for x in w['members'].split(',') + [w['first']] if x in comp}
        D = G.project(D0, {n for x in S for n in near[comp[x]]})
        D['freq'] = [dict(n=x['n'], pos=i + 1) for i, x in enumerate(D['freq'])]
        ins.append([dict(op='data', D=G.finish(D, [w['first'] for w in e['meaning'] + e['pattern']] + ['：'])), e])
    c.check('TraceGroups', recorder_gr(exe), ins, label='shipped files')
