"""U10: column files. MCColumnFile enumerates every small header and row and checks acceptance and that the cells give the row
back; all of those files are then read by the real class, together with generated files (columns in any order, delimiters, long
rows, final lines without newline, many rows) whose cells are converted by every typed accessor with limits around each boundary."""
from common import *
NUMS = ['0', '1', '9', '10', '007', '254', '255', '256', '0255', '65534', '65535', '65536', '100000', '4294967295', '4294967296', '18446744073709551614',
        '18446744073709551615', '18446744073709551616', '99999999999999999999', '00000000000000000000001', '-0', '-1', '-255', '+1', ' 1', '1 ', '1a', '0x10', 'a', '1.5', '1e3', '１', '']
BOOLS = ['Y', 'T', 'N', 'F', 'y', 't', 'n', 'f', 'YY', 'YES', ' ', 'X', '1', '0', '']
HEX = ['4E00', '20BB7', 'FFFF', 'FFFFF', '0000', '00000', '4e00', 'G000', '4E0', '10FFFF', '4E 0', '12:4', '12@4', '12/4', '-123', '+123', '0x12', '漢A', '漢字', '漢AB', '']
TXT = ['', 'a', 'x y', '漢字', 'a,b', "it's", '"q"', 'かな', ' ', '\r', 'ゝ。']
KINDS = ['get', 'empty', 'u64', 'ou64', 'u8', 'u16', 'ou8', 'ou16', 'bool', 'code']
def record_with(exe):
    def rec(inputs):
        sess = []
        for h in inputs:
            L = []
            for e in h:
                o = e['op']
                if o == 'open': L.append(['cf.open', hx(e['name']), e['kind'], hx(e['text']), hx(e['delim'])] + [hx(c) for c in e['cols']])
                elif o == 'col': L.append(['cf.col', hx(e['c'])])
                elif o == 'get': L.append(['cf.get', e['kind'], hx(e['c']), e['max']])
                else: L.append(['cf.' + o])
            sess.append(L)
        rep = vt.run_sessions(exe, sess)
        return [dict(init=0, steps=[dict(e, r=r) for e, r in zip(h, rs)]) for h, rs in zip(inputs, rep)]
    return rec
def run(c):
    exe = h1(); rng = c.rng
    R = c.model('MCColumnFile', cfg='MCColumnFileT' if c.thorough else None)
    ins = []
    nses = 0
    def sess(cols, text, delim='\t', kind='file', late=(), early=(), kinds=KINDS, nget=None):
        """one session; column names get a prefix of their own because columns are registered globally"""
        nonlocal nses
        nses += 1
        P = f'n{nses}'
        lines = text.split('\n')
        # rename header cells
        lines[0] = delim.join(P + x if x else x for x in lines[0].split(delim))
        W = [P + x for x in cols]
        h = [dict(op='col', c=P + x) for x in early]
        h.append(dict(op='open', name=f'cf{nses}.txt', kind=kind, text='\n'.join(lines), delim=delim, cols=W))
        # predict only whether the file opens and which rows are readable (a rejected row ends the reading of cells)
        hd = lines[0].split(delim)
        if hd and hd[-1] == '': hd = hd[:-1]
        ok = kind in ('file', 'readonly') and W and text and sorted(hd) == sorted(W) and len(set(W)) == len(W)
        if not ok: return h
        h.append(dict(op='get', kind=rng.choice(kinds), c=rng.choice(W), max='0', bytes=0))
        body = lines[1:]
        if body and body[-1] == '': body = body[:-1]
        for row in body + [None, None]:
            h.append(dict(op='next'))
            if row is None: h.append(dict(op='info')); continue
            q = row.split(delim)
            if len(q) == len(W) + 1 and q[-1] == '': q = q[:-1]
            if len(q) != len(W): continue
            get = [(k, x) for x in W for k in kinds]
            if nget is not None and len(get) > nget: get = rng.sample(get, nget)
            for k, x in get:
                v = q[hd.index(x)]
                h.append(dict(op='get', kind=k, c=x, max=rng.choice(['0', '0', '1', '255', '256', '65535', '10', '18446744073709551615', '18446744073709551614', v if v.isdigit() and v.isascii() and 0 < int(v) < 2**64 and v[0] != '0' else '7']) if k in ('u64', 'ou64') else '0', bytes=len(v.encode())))
            for x in list(late) + list(early):
                if P + x not in W: h.append(dict(op='get', kind=rng.choice(kinds), c=P + x, max='0', bytes=0))
        return h
    for e in vt.prints(R, 'HIST '):
        ins.append(sess(e['cols'], e['text'], kinds=['get'], late=['Z'] if rng.random() < .2 else [], early=['B', 'Y'] if rng.random() < .2 else []))
    for v in NUMS + BOOLS + HEX + TXT:
        ins.append(sess(['A'], 'A\n' + v)); ins.append(sess(['A', 'B'], f'B\tA\n{v}\tx\nq\t{v}\n')); ins.append(sess(['A', 'B'], f'B;A\n{v};x\nq;{v}\n', delim=';'))
    for n in range(1, 2**16, 997): ins.append(sess(['A'], f'A\n{n:04X}\n{n+65536:X}\n{n}', kinds=['code', 'u16', 'u8', 'u64']))
    for _ in range(c.n(500, 8000)):
        n = rng.randint(1, 6)
        cols = [chr(65 + i) for i in range(n)]
        hd = cols[:]; rng.shuffle(hd)
        d = rng.choice('\t\t,;| ')
        val = lambda: rng.choice([x for x in rng.choice([NUMS, BOOLS, HEX, TXT]) if d not in x])
        if rng.random() < .15: hd = [rng.choice(cols + ['Q']) for _ in range(rng.randint(0, n + 2))]
        if rng.random() < .05: cols.append(rng.choice(cols))
        rows = []
        for _ in range(rng.randint(0, 6)):
            m = n if rng.random() < .85 else max(0, n + rng.choice([-2, -1, 1, 2]))
            rows.append(d.join(val() for _ in range(m)) + (d if rng.random() < .1 else ''))
        text = '\n'.join([d.join(hd) + (d if rng.random() < .1 else '')] + rows) + ('\n' if rng.random() < .7 else '')
        if rng.random() < .03: text = ''
        ins.append(sess(cols if rng.random() > .02 else [], text, d, kind=rng.choice(['file'] * 40 + ['dir', 'missing', 'readonly', 'readonly']), late=['L'], early=['E'] if rng.random() < .5 else [], nget=8))
    c.check('TraceColumnFile', record_with(exe), ins, label='column files')
