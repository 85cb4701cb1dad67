"""J01: loading a data directory. MCKanjiData places two names in every combination of files and checks that the loading procedure gives
each the type of the first source naming it, lists it once and under exactly its fields; those directories and generated ones (about 40 kanji
with variants, links, old names, lists; every kind of fault) are loaded by the real classes, and every kanji, list and message is compared
with the specification."""
from kd import *
def run(c):
    exe = h2(); rng = c.rng
    R = c.model('MCKanjiData', cfg='MCKanjiDataT' if c.thorough else None)
    hist = vt.prints(R, 'HIST ')
    if not c.thorough: hist = rng.sample(hist, min(len(hist), 1200))
    c.check('TraceKanjiData', recorder_kd(exe), [[dict(op='load', D=placed(h))] for h in hist], label='placements')
    ins = [[dict(op='load', D=G.finish(G.small(rng, rng.choice([.2, .5, 1, 1, 1.5]))))] for _ in range(c.n(700, 12000))]
    c.check('TraceKanjiData', recorder_kd(exe), ins, label='directories')
