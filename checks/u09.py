"""U09: interning of names by symbol types. MCSymbol checks every short history (capacity 3) for one-to-one, consecutive and
stable identities; the same histories are replayed on real symbol types, from empty and from types filled to three below the
real 16-bit capacity; plus long random histories over many names."""
from common import *
MAX = 65534
def nm(t): return dict(n=t, j=int(t[1:]) if t[:1] == 'f' and t[1:].isdigit() and (t == 'f0' or t[1] != '0') else -1)
def record_with(exe):
    def rec(inputs):
        out = []
        for b in chunks(inputs, 256):
            sess = []
            for i, h in enumerate(b):
                T = lambda ty: 2 * (i // 8) + ty
                L = []
                for e in h:
                    l = ['sym', e['op'], T(e['ty'])]
                    if e['op'] == 'fill': l += [hx('f'), e['k']]
                    else:
                        for f in 'ac':
                            if f in e: l.append(hx(e[f]['n']))
                    L.append(l)
                sess.append(L)
            rep = vt.run_sessions(exe, sess, shards=8)
            for i, (h, rs) in enumerate(zip(b, rep)):
                out.append(dict(init=0, steps=[dict(e, tn=f"Type{2 * (i // 8) + e['ty']}", r=r) for e, r in zip(h, rs)]))
        return out
    return rec
def run(c):
    exe = h1(); rng = c.rng
    R = c.model('MCSymbol', cfg='MCSymbolT' if c.thorough else None)
    hs = vt.prints(R, 'HIST ')
    tail = [dict(op='new', ty=t, a=nm(x)) for t in (0, 1) for x in ('', 'a', 'b', 'c', 'd')] + [dict(op='exists', ty=t, a=nm(x)) for t in (0, 1) for x in ('', 'a', 'b', 'c', 'd')]
    ins = [h + tail for h in hs]
    full = rng.sample(hs, min(len(hs), c.n(120, 1500)))
    for h in full:
        k = MAX - rng.choice([3, 3, 2, 1, 0, 4])
        ins.append([dict(op='fill', ty=0, k=k)] + h + tail + [dict(op=o, ty=0, a=nm(x)) for o in ('exists', 'new') for x in ('f0', f'f{k-1}', f'f{k}', 'f1', 'f32767', 'f65533', 'a')])
    alpha = ['a', 'b', 'A', 'f', 'f1', '0', ' ', '漢', 'か', '.', 'Type0']
    for _ in range(c.n(120, 1500)):
        names = [''.join(rng.choice(alpha) for _ in range(rng.randint(0, 4))) for _ in range(rng.randint(1, 30))]
        h = []
        for _ in range(rng.randint(5, 80)):
            e = dict(op=rng.choice(['new', 'new', 'new', 'eq', 'exists', 'empty']), ty=rng.randint(0, 1), a=nm(rng.choice(names)))
            if e['op'] == 'eq': e['c'] = nm(rng.choice(names))
            h.append(e)
        ins.append(h)
    c.check('TraceSymbol', record_with(exe), ins, label='symbol histories')
