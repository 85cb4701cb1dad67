"""J08: what loading reports with -info and -debug. KanjiReport.tla counts over the kanji that KanjiData.tla loads; MCReport checks on the directories
of MCKanjiData that each breakdown divides the loaded kanji and adds up. The real classes load those directories and generated ones (all types,
variants, levels, kyus, radicals with more than 12 kanji and with none) with both options and the whole text is compared."""
from kd import *
def run(c):
    exe = h2(); rng = c.rng
    R = c.model('MCReport', cfg='MCReportT' if c.thorough else None, timeout=800)
    hist = vt.prints(R, 'HIST ')
    if not c.thorough: hist = rng.sample(hist, min(len(hist), 150))
    c.check('TraceKanjiData', recorder_kd(exe), [[dict(op='report', D=placed(h), opt='-debug'), dict(op='report', D=placed(h), opt='-info')] for h in hist], label='placements')
    ins = []
    for i in range(c.n(300, 3000)):
        faulty = rng.random() < .2 # (two selectors for one kanji have no order)
        D = G.finish(G.small(rng, rng.choice([.2, .5, 1, 1, 1.5, 2.5]), faults=faulty))
        if len({r['Name'] for r in D['jouyou']}) < len(D['jouyou']): continue # (the record of a repeated row is not followed)
        ins.append(([] if faulty else [dict(op='report', D=D, opt='-debug')]) + ([dict(op='report', D=D, opt='-info')] if faulty or i % 3 == 0 else []))
    c.check('TraceKanjiData', recorder_kd(exe), ins, label='reports')
    cov = c.cov.setdefault('categories', {})
    for h in ins:
        for e in h:
            D = e['D']
            for k, v in (('variants', any(len(x['n']) == 2 for x in D['cps'])), ('levels', any(D['levels'])), ('extra', D['extra']), ('missing radicals', len(D['radicals']) > 100), ('few radicals', len(D['radicals']) < 7)):
                cov[k] = cov.get(k, 0) + bool(v)
    if not all(cov.values()): raise vt.CheckError(f'empty category {cov}')
