"""data directories for the checks of the kanji data classes"""
import random
import ucdgen as U
LEVELS = ['N5', 'N4', 'N3', 'N2', 'N1']
KYUS = ['K10', 'K9', 'K8', 'K7', 'K6', 'K5', 'K4', 'K3', 'KJ2', 'K2', 'KJ1', 'K1']
REASONS = ['Names', 'Print', 'Variant', 'Moved', 'Simple', 'Other']
GRADES = ['1', '2', '3', '4', '5', '6', 'S']
JCOLS = ['Number', 'Name', 'Radical', 'OldNames', 'Year', 'Strokes', 'Grade', 'Meaning', 'Reading']
NCOLS = ['Number', 'Name', 'Radical', 'OldNames', 'Year', 'Reason', 'Reading']
ECOLS = ['Number', 'Name', 'Radical', 'Strokes', 'Meaning', 'Reading']
RADN = [l.split('\t')[1].split(' ')[0] for l in open(U.repo() + '/data/radicals.txt').read().split('\n')[1:] if l]
COMPAT = [chr(c) for c in range(0xfa30, 0xfa6a)]
BMP = [chr(c) for c in range(0x4e00, 0x9fa0, 37)] + ['\u3400', '\u4db0']
SUPP = list('𠮟𠀋𡈽𡚴𡸴𢅥𢭏𣇄') + [chr(0x2a700 + 17 * i) for i in range(8)]
READ = ['ア', 'アイ、あわ-れ', 'イチ、イツ、ひと、ひと-つ', 'ギョウ、コウ、あ-ける', 'カン', 'うえ、うわ-']
def name_of(level): return level[0].lower() + level[1:]
def base(n): return n[:-1] if len(n) == 2 and '\ufe00' <= n[1] <= '\ufe0f' else n
def entry(n): return dict(n=n, base=base(n), cp=[ord(c) for c in n])
def rows_text(cols, rows): return U.text(rows, cols)
def files(D):
    """path -> content"""
    f = {'ucd.txt': U.text(D['ucd']), 'radicals.txt': 'Number\tName\tLongName\tReading\n' + ''.join(f'{i + 1}\t{n}\t\tx\n' for i, n in enumerate(D['radicals'])),
         'frequency-readings.txt': 'Name\tReading\n' + ''.join(f'{a}\t{b}\n' for a, b in D['freqr']),
         'jouyou.txt': rows_text(JCOLS, D['jouyou']), 'jinmei.txt': rows_text(NCOLS, D['jinmei']), 'extra.txt': rows_text(ECOLS, D['extra']),
         'linked-jinmei.txt': ''.join((l['line'] if l['bad'] else f"{l['jouyou']}\t{l['linked']}") + '\n' for l in D['linked']),
         'frequency.txt': ''.join(x['n'] + '\n' for x in D['freq']), 'meaning-groups.txt': 'Number\tName\tMembers\n', 'pattern-groups.txt': 'Number\tName\tMembers\n'}
    for l, q in zip(LEVELS, D['levels']): f[f'jlpt/{name_of(l)}.txt'] = ''.join(x + '\n' for x in q)
    for l, q in zip(KYUS, D['kyus']): f[f'kentei/{name_of(l)}.txt'] = ''.join(x + '\n' for x in q)
    return f
def all_names(D):
    s = set()
    for r in D['ucd']: s.add(r['Name']); s.update(U.pieces(r['LinkNames'], ','))
    for k in ('jouyou', 'jinmei', 'extra'):
        for r in D[k]:
            s.add(r['Name'])
            if 'OldNames' in r: s.update(U.pieces(r['OldNames'], ','))
    for l in D['linked']: s.update([l['jouyou'], l['linked']])
    for a, b in D['freqr']: s.add(a)
    for q in D['levels'] + D['kyus']: s.update(q)
    s.update(x['n'] for x in D['freq'])
    s.discard('')
    return s
def finish(D, more=()):
    """names and code points the specification needs"""
    for r in D['ucd']: U.with_cp(r)
    s = all_names(D) | set(more)
    s |= {base(n) for n in s}
    D['cps'] = [entry(n) for n in sorted(s)]
    return D
def types(D):
    """the type every name gets from the files before the lists (precedence only): for the preconditions of the lists"""
    t = {}
    for r in D['jouyou']: t.setdefault(r['Name'], 'Jouyou')
    for l in D['linked']: t.setdefault(l['linked'], 'LinkedJinmei')
    for r in D['jouyou']:
        for o in U.pieces(r['OldNames'], ','): t.setdefault(o, 'LinkedOld')
    for r in D['jinmei']:
        t.setdefault(r['Name'], 'Jinmei')
        for o in U.pieces(r['OldNames'], ','): t.setdefault(o, 'LinkedJinmei')
    for r in D['extra']: t.setdefault(r['Name'], 'Extra')
    return t
def settle(D):
    """drops list entries outside the documented preconditions: level lists name jouyou and jinmei kanji, the frequency list no extra kanji,
    and lists name kanji without selector and not by their compatibility character"""
    t = types(D)
    claimed = {}
    for r in D['ucd']:
        if r['Jinmei']:
            for l in U.pieces(r['LinkNames'], ','): claimed[l] = r['Name']
    vs = {claimed.get(base(n)) for n in t if base(n) != n}
    ok = lambda n: n not in vs and len(n) == 1
    D['levels'] = [[n for n in q if t.get(n) in ('Jouyou', 'Jinmei') and ok(n)] for q in D['levels']]
    q = [x['n'] for x in D['freq'] if t.get(x['n']) != 'Extra' and ok(x['n'])]
    D['freq'] = [dict(n=n, pos=i + 1) for i, n in enumerate(q)]
    D['kyus'] = [[n for n in q if ok(n)] for q in D['kyus']]
    return D
def urow(rng, n, nrad, joyo=False, jinmei=False, links=()):
    r = U.plain(rng, n, joyo=joyo, jinmei=jinmei, links=links)
    r['Radical'] = str(rng.randint(1, nrad))
    if r['NelsonIds']:
        r['NelsonIds'] = ','.join(str(i) for i in rng.sample(range(1, 30), rng.choice([1, 1, 2, 3])))
    if rng.random() < .5: r['MorohashiId'] = rng.choice(['', '1', '2', '3', '2P', "2''", 'H2', '3P', '0', '007'])
    if rng.random() < .4: r['Strokes'], r['VStrokes'] = rng.choice(['4', '5', '6']), rng.choice(['', '', '7', '9'])
    if not (r['On'] or r['Kun'] or r['MorohashiId'] or r['JSource']): r['On'] = rng.choice(U.ON)
    return r
def small(rng, scale=1.0, faults=True):
    """a directory with about 40 kanji"""
    k = lambda a, b: rng.randint(a, max(a, int(b * scale)))
    pool = rng.sample(BMP, min(len(BMP), int(120 * scale) + 20)) + rng.sample(SUPP, 8); rng.shuffle(pool)
    comp = COMPAT[:]; rng.shuffle(comp)
    nrad = rng.choice([6, 20, 214]); radicals = RADN[:nrad]
    D = dict(radicals=radicals, ucd=[], freqr=[], jouyou=[], linked=[], jinmei=[], extra=[], levels=[[] for _ in LEVELS], kyus=[[] for _ in KYUS], freq=[])
    ucd = {}
    def u(n, **kw):
        if n not in ucd: ucd[n] = urow(rng, n, nrad, **kw)
    def variant(of):
        """name with a selector, its Unicode entry claims 'of'"""
        c = comp.pop(); u(c, jinmei=True, links=[of])
        return of + rng.choice('\ufe00\ufe01')
    year = lambda: rng.choice(['', '', '', '2010', '1951', '0', '65535'])
    num = lambda i: rng.choice([str(i), str(i), '00' + str(i)])
    jou = [pool.pop() for _ in range(k(3, 12))]
    for i, n in enumerate(jou):
        u(n, joyo=True)
        old = []
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            o = pool.pop(); old.append(o)
            if rng.random() < .8: u(o, jinmei=False, links=[n] if rng.random() < .7 else [])
            else: u(o)
        D['jouyou'].append(dict(Number=num(i + 1), Name=n, Radical=rng.choice(radicals), OldNames=','.join(old), Year=year(), Strokes=str(rng.choice([1, 4, 5, 6, 7, rng.randint(1, 30), 64])),
                                Grade=rng.choice(GRADES), Meaning=rng.choice(['one', '', 'sub-']), Reading=rng.choice(READ)))
    claimed = set()
    for n in rng.sample(jou, min(len(jou), rng.randint(0, 4))):
        row = next(r for r in D['jouyou'] if r['Name'] == n)
        olds = U.pieces(row['OldNames'], ',')
        if rng.random() < .5:
            l = variant(n); claimed.add(n)
            if rng.random() < .6: row['OldNames'] = ','.join(olds + [l])
        else:
            l = olds[0] if olds and rng.random() < .6 else pool.pop()
            ucd[l] = urow(rng, l, nrad, jinmei=True, links=[n])
        D['linked'].append(dict(jouyou=n, linked=l, bad=False, line=''))
    jin = [pool.pop() for _ in range(k(1, 7))]
    for i, n in enumerate(jin):
        u(n, jinmei=True); old = []
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            if rng.random() < .5 and n not in claimed: o = variant(n); claimed.add(n)
            else:
                o = pool.pop()
                u(o, jinmei=True, links=[n] if n not in claimed else [pool[0]] if pool[0] not in claimed else []); claimed.add(n if n not in claimed else pool[0])
            old.append(o)
        D['jinmei'].append(dict(Number=num(i + 1), Name=n, Radical=rng.choice(radicals), OldNames=','.join(old), Year=year(), Reason=rng.choice(REASONS), Reading=rng.choice(READ)))
    ext = [pool.pop() for _ in range(k(0, 4))]
    for i, n in enumerate(ext):
        u(n, links=rng.sample(jou, rng.choice([0, 0, 1, 2])))
        D['extra'].append(dict(Number=num(i + 1), Name=n, Radical=rng.choice(radicals), Strokes=str(rng.randint(1, 30)), Meaning=rng.choice(['', 'dust']), Reading=rng.choice(READ)))
    def other(): # a kanji of no official file
        n = pool.pop(); u(n, links=rng.sample(jou, rng.choice([0, 0, 0, 1, 2]))); return n
    olds = [o for r in D['jouyou'] + D['jinmei'] for o in U.pieces(r['OldNames'], ',')] + [l['linked'] for l in D['linked']]
    fr = rng.sample(jou, rng.randint(0, len(jou))) + rng.sample(jin, rng.randint(0, len(jin))) + [o for o in sorted(set(olds)) if rng.random() < .25] + [other() for _ in range(rng.choice([0, 1, 2, 4]))]
    fr = sorted(set(fr)); rng.shuffle(fr)
    D['freq'] = [dict(n=n) for n in fr]
    kn = [n for n in jou + jin + ext + sorted(set(olds)) + fr if rng.random() < .6]
    kn = sorted(set(kn)) + [other() for _ in range(rng.choice([0, 1, 2, 4]))]
    for n in sorted(set(kn)): rng.choice(D['kyus'] if rng.random() < .5 else D['kyus'][-3:]).append(n)
    for n in jou + jin:
        if rng.random() < .5: rng.choice(D['levels']).append(n)
    for q in D['levels'] + D['kyus']: rng.shuffle(q)
    for n in [x['n'] for x in D['freq']] + [pool.pop()]:
        if rng.random() < .3: D['freqr'].append([n, rng.choice(READ)])
    for _ in range(k(0, 5)): other()
    D['ucd'] = list(ucd.values()); rng.shuffle(D['ucd'])
    if faults and rng.random() < .5:
        for _ in range(rng.choice([1, 1, 1, 2])): fault(rng, D, pool)
    return settle(D)
def fault(rng, D, pool):
    c = rng.randrange(18)
    row = lambda k: rng.choice(D[k]) if D[k] else None
    file = rng.choice(['jouyou', 'jinmei', 'extra'])
    r = row(file)
    if c == 0 and D['ucd']: D['ucd'].remove(row('ucd'))
    elif c == 1: x = row('ucd'); x['Joyo'] = '' if x['Joyo'] or x['Jinmei'] or x['LinkNames'] or not x['Meaning'] else 'Y'
    elif c == 2: x = row('ucd'); x['Jinmei'] = '' if x['Jinmei'] or x['Joyo'] or x['LinkNames'] else 'Y'
    elif c == 3 and r: # a name again in the same or another file
        o = row(rng.choice(['jouyou', 'jinmei', 'extra']))
        if o: r['Name'] = o['Name']
    elif c == 4 and r: r['Number'] = rng.choice(['', '0', 'x', '65536', '-1', '99999'])
    elif c == 5 and r: r['Radical'] = rng.choice(['', 'x', '亜', D['radicals'][0]])
    elif c == 6 and r and 'Year' in r: r['Year'] = rng.choice(['x', '70000', '0'])
    elif c == 7 and r and 'Strokes' in r: r['Strokes'] = rng.choice(['', '0', '65', 'x', '300', '64'])
    elif c == 8 and D['jouyou']: row('jouyou')['Grade'] = rng.choice(['', '0', '7', 'G1', 'SS', 'None', 's'])
    elif c == 9 and D['jinmei']: row('jinmei')['Reason'] = rng.choice(['', 'None', 'names', 'Name', 'X'])
    elif c == 10: D['linked'].insert(rng.randint(0, len(D['linked'])), dict(jouyou='', linked='', bad=True, line=rng.choice(['', 'x', '亜', '亜\t', '亜 亞'])))
    elif c == 11: D['linked'].append(dict(jouyou=rng.choice([pool.pop(), D['ucd'][0]['Name']]), linked=rng.choice(D['ucd'])['Name'], bad=False, line=''))
    elif c == 12 and D['linked']: x = row('linked'); D['linked'].append(dict(jouyou=x['linked'], linked=rng.choice(D['ucd'])['Name'], bad=False, line=''))
    elif c == 13 and D['freqr']: D['freqr'].insert(rng.randint(0, len(D['freqr'])), list(rng.choice(D['freqr'])))
    elif c == 14: D['radicals'] = D['radicals'][:max(1, len(D['radicals']) - rng.choice([1, 1, 3]))]
    elif c == 15 and D['linked']: # another selector for the same kanji
        x = row('linked'); D['linked'].append(dict(jouyou=x['jouyou'], linked=base(x['linked']) + '\ufe02', bad=False, line=''))
    elif c == 16 and D['jouyou']: # an old name that is something else too
        x = row('jouyou'); x['OldNames'] = ','.join(U.pieces(x['OldNames'], ',') + [rng.choice(D['ucd'])['Name']])
    elif c == 17 and D['jinmei']:
        x = row('jinmei'); x['OldNames'] = ','.join(U.pieces(x['OldNames'], ',') + [rng.choice(D['ucd'])['Name']])
# ---- large directories: the specification follows a part of the names (closed under links) of a load that must succeed
def components(D):
    """name -> representative of the names it is linked with"""
    up = {}
    def f(x):
        up.setdefault(x, x)
        while up[x] != x: up[x] = up[up[x]]; x = up[x]
        return x
    def join(a, b):
        if a and b: up[f(a)] = f(b)
    for r in D['ucd']:
        f(r['Name'])
        for l in U.pieces(r['LinkNames'], ','): join(r['Name'], l)
    for k in ('jouyou', 'jinmei'):
        for r in D[k]:
            f(r['Name'])
            for o in U.pieces(r['OldNames'], ','): join(r['Name'], o)
    for l in D['linked']: join(l['jouyou'], l['linked'])
    for n in all_names(D):
        f(n)
        if base(n) != n: join(n, base(n))
    return {n: f(n) for n in up}
def project(D, S):
    """the part of D about the names S"""
    k = lambda q, g=lambda x: x: [x for x in q if g(x) in S]
    name = lambda r: r['Name']
    P = dict(radicals=D['radicals'], ucd=[dict(r) for r in k(D['ucd'], name)], freqr=k(D['freqr'], lambda x: x[0]), jouyou=k(D['jouyou'], name), linked=k(D['linked'], lambda l: l['linked']),
             jinmei=k(D['jinmei'], name), extra=k(D['extra'], name), levels=[k(q) for q in D['levels']], kyus=[k(q) for q in D['kyus']], freq=k(D['freq'], lambda x: x['n']))
    return finish(P)
def parts(D, size):
    """sets of names that cover D; each contains the last name of the frequency list"""
    g = {}
    for n, c in components(D).items(): g.setdefault(c, []).append(n)
    last = next((set(v) for v in g.values() if D['freq'] and D['freq'][-1]['n'] in v), set())
    out, cur = [], set()
    for c in sorted(g):
        cur |= set(g[c])
        if len(cur) >= size: out.append(cur | last); cur = set()
    return out + ([cur | last] if cur else [])
def shipped(rng, repo):
    """the shipped files with generated Unicode data -> D, and the files themselves"""
    txt = lambda p: open(f'{repo}/data/{p}', encoding='utf-8').read()
    def tab(p):
        q = [l.split('\t') for l in txt(p).split('\n') if l]
        return [dict(zip(q[0], r + [''] * (len(q[0]) - len(r)))) for r in q[1:]]
    names = lambda p: [x for l in txt(p).split('\n') for x in l.split(' ') if x]
    D = dict(radicals=[r['Name'].split(' ')[0] for r in tab('radicals.txt')], jouyou=tab('jouyou.txt'), jinmei=tab('jinmei.txt'), extra=tab('extra.txt'),
             linked=[dict(jouyou=l.split('\t')[0], linked=l.split('\t')[1], bad=False, line='') for l in txt('linked-jinmei.txt').split('\n') if l],
             freqr=[[r['Name'], r['Reading']] for r in tab('frequency-readings.txt')], levels=[names(f'jlpt/{name_of(l)}.txt') for l in LEVELS],
             kyus=[names(f'kentei/{name_of(l)}.txt') for l in KYUS], freq=[dict(n=n, pos=i + 1) for i, n in enumerate(names('frequency.txt'))], ucd=[])
    t = types(D); link = {}
    for r in D['jouyou'] + D['jinmei']:
        for o in U.pieces(r['OldNames'], ','): link[o] = r['Name']
    for l in D['linked']: link[l['linked']] = l['jouyou']
    comp = sorted(set(COMPAT + [chr(c) for c in range(0xf900, 0xfa00)]) - all_names(D)); rng.shuffle(comp)
    for n in sorted(all_names(D)):
        if base(n) != n: D['ucd'].append(urow(rng, comp.pop(), 214, jinmei=True, links=[base(n)])); continue
        k = t.get(n)
        D['ucd'].append(urow(rng, n, 214, joyo=k == 'Jouyou', jinmei=k in ('Jinmei', 'LinkedJinmei'), links=[link[n]] if k == 'LinkedJinmei' else [link[n]] if k == 'LinkedOld' and rng.random() < .5 else []))
    have = {r['Name'] for r in D['ucd']}
    for n in BMP + SUPP:
        if n not in have: D['ucd'].append(urow(rng, n, 214))
    rng.shuffle(D['ucd'])
    f = files(D)
    for p in f:
        if p != 'ucd.txt': f[p] = txt(p)
    return D, f
