"""J04: Unicode data. Generated files of up to 8 rows (all link types, sources, strokes, Morohashi forms, readings; one or two cells
changed to values around every rule) are loaded by the real class; the TLA+ specification says which rows must be rejected and with what
reason, and otherwise what every record, every lookup (with and without variation selector) and every reading in kana must be.
Larger files of random rows are compared record by record."""
from common import *
import ucdgen as U
POOL = list('一丁七万丈三上下不与丐丑且丕世丘丙丞両並僧侮亜唖𠮟𠀋㐀㐂') + ['\ufa31', '\ufa30', '\U0002f804', '⺀', '\U00020000', '\U0003134f', '\u9fff', '\uf900']
NOTK = ['', 'a', 'あ', 'é', 'アイ', 'abcd', '一一', '𠮟a', '一a', '\u30ff', '、', '豈\ufe00']
BAD = dict(Code=['', '4E0', '4e00', '4E01', 'FFFFFF', 'XYZW', '04E00', '20B9F'], Name=NOTK, Radical=['', '0', '214', '215', '1000', '-1', 'x', '01', '99999999999999999999'],
           Strokes=['', '0', '1', '2', '3', '64', '65', '255', '256', 'x'], VStrokes=['1', '2', '3', '33', '34', '64', '0', '256', 'x', '14'],
           MorohashiId=['P', 'H', 'x1', '65536', '0P', '12H', 'H0', "1'''", '00001'], Sources=['X', 'GG', 'GHJKTVG', 'g', 'VTKJHG', 'GHJX', 'JGJ'],
           Joyo=['Y', 'T', 'N', 'F', 'X', 'YY', 'y'], Jinmei=['Y', 'T', 'N', 'F', 'X', 'YES'], LinkCodes=['4E00', '4E01,4E03', '4E00,', ',', 'x', '4E00,4E03'],
           LinkNames=['一', '丁,七', '一,', ',', 'a', '一,七', '丁,丁', 'あ'], LinkType=U.LT + ['Semantic', 'None', 'x', 'jinmei', ''], Meaning=[''], On=[''], Kun=[''], JSource=[''])
def run(c):
    exe = h2(); rng = c.rng
    c.model('MCUcd', cfg='MCUcdT' if c.thorough else None)
    ins = []; cnt = [0]
    def file():
        cnt[0] += 1; return f'ucd{cnt[0]}.txt'
    def session(rows):
        for r in rows: U.with_cp(r)
        h = [dict(op='new'), dict(op='load', file=file(), rows=rows), dict(op='names')]
        for n in {r['Name'] for r in rows if r['Name']} | {x for r in rows for x in U.pieces(r['LinkNames'], ',') if x} | {'一', '並'}:
            if len(n) == 1 and ord(n) > 0x7f:
                h.append(dict(op='get', base=n, vs=False, n=n)); h.append(dict(op='get', base=n, vs=True, n=n + rng.choice('\ufe00\ufe01\ufe0f')))
        return h
    def rows(n):
        names = rng.sample(POOL, n); free = POOL[:]; rng.shuffle(free); q = []
        for nm in names:
            k = rng.random()
            links = []
            if k > .25: links = [x for x in [free.pop() for _ in range(rng.choice([0, 1, 1, 2]))] if x != nm]
            q.append(U.plain(rng, nm, joyo=k < .25, jinmei=.25 <= k < .55, links=links))
        return q
    # every rule on its own, at every place of a two row file, and pairs of rules
    for f in BAD:
        for v in BAD[f]:
            for _ in range(3):
                q = rows(2); q[rng.randrange(2)][f] = v
                if f in ('Strokes', 'VStrokes') and rng.random() < .5: q[0]['VStrokes'] = q[1]['VStrokes'] = rng.choice(['', '14'])
                if f in ('On', 'Kun', 'JSource') and rng.random() < .5:
                    for g in ('On', 'Kun', 'JSource', 'MorohashiId'): q[1][g] = ''
                    q[1][rng.choice(['On', 'Kun', 'JSource', 'MorohashiId', 'Block'])] = rng.choice(['1', '12', '7'])
                ins.append(session(q))
    for i in range(40): # one (or none) of the four columns that make a row worth having
        n = rng.randint(1, 4); q = rows(n); at = rng.randrange(n)
        for g in ('On', 'Kun', 'JSource', 'MorohashiId'): q[at][g] = ''
        if i % 5: q[at][('On', 'Kun', 'JSource', 'MorohashiId')[i % 5 - 1]] = rng.choice(['1', '12', '7'])
        ins.append(session(q))
    for _ in range(c.n(900, 12000)):
        q = rows(rng.randint(1, 8))
        if rng.random() < .5:
            for _ in range(rng.choice([1, 1, 2])):
                f = rng.choice(list(BAD)); rng.choice(q)[f] = rng.choice(BAD[f])
        if rng.random() < .1: q.append(dict(rng.choice(q)))
        if rng.random() < .15 and len(q) > 1:
            a, b = rng.sample(q, 2); b['LinkNames'], b['LinkCodes'], b['LinkType'] = a['LinkNames'], a['LinkCodes'], a['LinkType']
            if a['Jinmei']: b['Joyo'], b['Jinmei'] = '', rng.choice(['Y', 'Y', ''])
        ins.append(session(q))
    def rec(inputs):
        L = {'new': lambda e: ['uc.new'], 'load': lambda e: ['uc.load', hx(e['file']), hx(U.text(e['rows']))], 'names': lambda e: ['uc.names'], 'get': lambda e: ['uc.get', hx(e['n'])]}
        rep = vt.run_sessions(exe, [[L[e['op']](e) for e in h] for h in inputs])
        return [dict(init=0, steps=[dict(e, r=r) for e, r in zip(h, rs)]) for h, rs in zip(inputs, rep)]
    c.check('TraceUcd', rec, ins, label='small files')
    # large files, judged record by record
    big = []
    for base, n in [(0x4e00, c.n(1500, 20000)), (0x20000, c.n(800, 20000)), (0x3400, c.n(700, 6000))]:
        q = [U.with_cp(U.plain(rng, chr(base + i), joyo=i % 5 == 0, links=[chr(base + rng.randrange(n))] if i % 5 == 1 else [])) for i in range(n)]
        big += [dict(rows=q, lo=i, hi=min(n, i + 100)) for i in range(0, n, 100)]
    def recbig(inputs):
        sess = [[['uc.new'], ['uc.load', hx(f'big{id(e) % 10**9}.txt'), hx(U.text(e['rows']))]] + [['uc.get', hx(r['Name'])] for r in e['rows'][e['lo']:e['hi']]] for e in inputs]
        rep = vt.run_sessions(exe, sess)
        return [dict(init=0, steps=[dict(op='new', r={'v': 0}), dict(op='load', file='', rows=[], r=rs[1] if len(rs) > 1 else {'crash': '?'})] + [dict(op='one', row=x, r=y) for x, y in zip(e['rows'][e['lo']:e['hi']], rs[2:])]) for e, rs in zip(inputs, rep)]
    c.check('TraceUcd', recbig, big, label='large files')
