"""U08: enum lists, maps, iterators, bitmasks. MCEnumSeq enumerates every short history of iterator operations (and checks
that errors change nothing and moves are reversible); those histories are replayed on real lists and maps of 1, 2, 3 and 130+
positions; plus random long histories, all index values around every byte boundary, list life cycles and all bitmask pairs."""
import itertools, json
from common import *
KINDS = dict(L1=('list', 1, False), L3=('list', 3, False), L130=('list', 130, False), N1=('list', 2, True), N2=('list', 3, True),
             M1=('map', 1, False), M3=('map', 3, False), M250=('map', 250, False))
ARG = {'begin': ['g', 'on'], 'end': ['g', 'on'], 'def': ['g'], 'copy': ['g', 'q'], 'inc': ['g'], 'dec': ['g'], 'incp': ['g'], 'decp': ['g'], 'add': ['g', 'i'], 'sub': ['g', 'i'],
       'plus': ['g', 'i'], 'minus': ['g', 'i'], 'at': ['g', 'i'], 'deref': ['g'], 'diff': ['g', 'q'], 'cmp': ['g', 'q'], 'size': [], 'all': ['on'], 'index': ['ty', 'is'],
       'name': ['i'], 'from': ['how', 't'], 'has': ['i'], 'set': ['on', 'i', 'w'], 'get': ['on', 'i', 'how']}
CAP = 2**31 - 1
def line(e):
    return ['en', e['op']] + [hx(e[a]) if a == 't' else e[a] for a in ARG[e['op']]]
def record_with(exe):
    def rec(inputs):
        rep = vt.run_sessions(exe, [[['en.new', k]] + [line(e) for e in h] for k, h in inputs])
        out = []
        for (k, h), rs in zip(inputs, rep):
            kind, n, none = KINDS[k]
            out.append(dict(init=dict(kind=kind, n=n, none=none), steps=[dict(e, r=r) for e, r in zip(h, rs[1:])]))
        return out
    return rec
def index_ops(n, none):
    ops = []
    edges = sorted({v + d for v in (0, n, 128, 256, 257, 512, 65536, 2**31, 2**32, 2**40, -128, -256, -512, -65536, -2**31, -2**32) for d in (-2, -1, 0, 1, 2)})
    for ty, lo, hi in (('int', -2**31, 2**31 - 1), ('long', -2**63, 2**63 - 1), ('i8', -128, 127), ('u8', 0, 255), ('u16', 0, 65535), ('size_t', 0, 2**64 - 1)):
        for v in edges + ([2**64 - 1, 2**64 - 256, 2**63] if ty == 'size_t' else [-2**63, 2**63 - 1] if ty == 'long' else []):
            if lo <= v <= hi: ops.append(dict(op='index', ty=ty, i=max(-CAP, min(CAP, v)), **{'is': str(v)}))
    return ops
def run(c):
    exe = h1(); rng = c.rng
    ins = []
    for kind in ('list', 'map'):
        R = c.model('MCEnumSeq', cfg=f'MCEnumSeq_{kind}T' if c.thorough else f'MCEnumSeq_{kind}')
        hs = vt.prints(R, 'HIST ')
        for h in hs:
            for k in (['L3', 'N2'] if kind == 'list' else ['M3']):
                pre = [dict(op='begin', g=2, on='l' if kind == 'list' else 'b')] if rng.random() < .5 else []
                if kind == 'map': pre += [dict(op='set', on=o, i=i, w=10 * i + j) for i in range(3) for j, o in enumerate('ab')]
                if rng.random() < .5: pre.append(dict(op='begin', g=1, on='l' if kind == 'list' else 'a'))
                ins.append((k, pre + h))
    offs = [0, 1, -1, 2, -2, 3, 5, -5, 127, 128, 250, 251, 255, 256, 257, 300, 511, 512, 65536, -128, -255, -256, -257, -512, 2**31 - 1, 2**30, -2**31 + 1]
    def rnd(k):
        kind, n, none = KINDS[k]
        ons = ['l'] if kind == 'list' else ['a', 'b']
        h = []
        for _ in range(rng.randint(4, 25)):
            o = rng.choice(['begin', 'end', 'def', 'copy', 'inc', 'dec', 'incp', 'decp', 'add', 'add', 'sub', 'plus', 'minus', 'at', 'deref', 'deref', 'diff', 'cmp', 'cmp', 'size', 'all'] +
                           (['name', 'from'] + (['has'] if none else []) if kind == 'list' else ['set', 'set', 'get', 'get']))
            e = dict(op=o)
            for a in ARG[o]:
                e[a] = {'g': lambda: rng.randint(1, 3), 'q': lambda: rng.randint(1, 3), 'on': lambda: rng.choice(ons), 'w': lambda: rng.randint(1, 99),
                        'i': lambda: rng.choice([rng.choice(offs), rng.randint(-n - 1, n + 1)]) if o not in ('name', 'has', 'set', 'get') else rng.choice([rng.randint(0, min(255, n + 1)), n, n - 1, 0, 255]),
                        'how': lambda: rng.choice(['const', 'mut']) if o == 'get' else rng.choice(['plain', 'empty', 'none', 'both'] if none else ['plain']),
                        't': lambda: rng.choice(['', 'None', 'x1', f'x{n}', f'x{n-1}', f'x{n+1}', 'X1', 'x'])}[a]()
            h.append(e)
        return h
    for k, (kind, n, none) in KINDS.items():
        ins.append((k, [dict(op='size'), dict(op='all', on='l' if kind == 'list' else 'a')]))
        if kind == 'list':
            ins.append((k, index_ops(n, none)))
            ins.append((k, [dict(op='name', i=i) for i in range(256)]))
            ins.append((k, [dict(op='from', how=h, t=t) for h in (['plain', 'empty', 'none', 'both'] if none else ['plain']) for t in ['', 'None', 'none'] + [f'x{i}' for i in range(0, n + 3)]]))
        else:
            ins.append((k, [dict(op='set', on=o, i=i, w=i + 1000 * j) for i in range(256) for j, o in enumerate('ab')] + [dict(op='get', on=o, i=i, how=h) for i in range(256) for o in 'ab' for h in ('const', 'mut')] + [dict(op='all', on='a'), dict(op='all', on='b')]))
        on = 'l' if kind == 'list' else 'a'
        for o in ('add', 'sub', 'plus', 'minus', 'at'):
            ins.append((k, [e for p in (0, 1, n - 1, n) for f in offs for e in (dict(op='begin', g=1, on=on), dict(op='add', g=1, i=p), dict(op=o, g=1, i=f))]))
        ins += [(k, rnd(k)) for _ in range(c.n(350, 5000))]
    c.check('TraceEnumSeq', record_with(exe), ins, label='containers and iterators')
    # life cycle of registered lists
    names = ['a', 'b', 'c', 'None', '']
    def life(w):
        h = []
        for _ in range(rng.randint(3, 12)):
            o = rng.choice(['created', 'destroy', 'create', 'create', 'find', 'str'])
            e = dict(op=o, w=w)
            if o == 'create': e['t'] = [rng.choice(names) for _ in range(2 if w == 'n' else 3)] if rng.random() < .5 else ['a', 'b', 'c'][:2 if w == 'n' else 3]
            if o == 'find': e['n'] = rng.choice(names)
            if o == 'str': e['i'] = rng.randint(0, 4)
            h.append(e)
        return h
    def rec_life(inputs):
        L = lambda e: ['life', e['op'], e['w']] + ([hx(x) for x in e['t']] if 't' in e else [hx(e['n'])] if 'n' in e else [e['i']] if 'i' in e else [])
        rep = vt.run_sessions(exe, [[['life', 'reset', 'n'], ['life', 'reset', 'l']] + [L(e) for e in h] for h in inputs])
        return [dict(init=dict(kind='life'), steps=[dict(e, r=r) for e, r in zip(h, rs[2:])]) for h, rs in zip(inputs, rep)]
    c.check('TraceEnumSeq', rec_life, [life(w) for _ in range(c.n(600, 6000)) for w in 'nl'], label='list life cycle')
    pairs = [(x, y) for x in range(256) for y in (range(256) if c.thorough else sorted({0, 1, 2, 0x55, 0xaa, 0x80, 255, rng.randint(0, 255), rng.randint(0, 255)}))]
    rec = recorder(exe, lambda x: ['mask', *x], lambda x: dict(op='mask', x=x[0], y=x[1]), init=dict(kind='mask'))
    c.check('TraceEnumSeq', rec, batch(pairs), label='bitmasks')
