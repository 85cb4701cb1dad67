"""J06: descriptions and sort orders. On generated directories the description of every kanji for random and for all 512 combinations of
fields, its qualified name, every pair under both orders and the sorted lists are compared with the specification; MCKanjiData shows the
orders strict and total."""
from kd import *
def run(c):
    exe = h2(); rng = c.rng
    c.model('MCKanjiData')
    ins = []
    for i in range(c.n(260, 4000)):
        D = G.finish(G.small(rng, rng.choice([.2, .5, 1, 1, 1.5]), faults=rng.random() < .2))
        h = [dict(op='load', D=D)]
        loaded = sorted(set(G.types(D)) | {x['n'] for x in D['freq']} | {n for q in D['kyus'] for n in q} | {r['Name'] for r in D['ucd']} - set(G.COMPAT)); loaded = [n for n in loaded if n and n[-1] != '\ufe02'] # a second selector of the same kanji is a load error
        for n in loaded:
            for f in {511, 0, rng.randrange(512), 511 - (1 << rng.randrange(9)), 1 << rng.randrange(9)}: h.append(dict(op='info', n=n, f=f))
        if i % 10 == 0 and loaded:
            n = rng.choice(loaded)
            for f in range(512): h.append(dict(op='info', n=n, f=f))
        for _ in range(3): h.append(dict(op='order', a=rng.sample(loaded, min(len(loaded), 12))))
        for how in ('strokes', 'qual'): h.append(dict(op='sort', how=how, a=rng.sample(loaded, min(len(loaded), 25))))
        ins.append(h)
    c.check('TraceKanjiData', recorder_kd(exe), ins, label='descriptions')
