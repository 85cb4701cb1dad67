"""recorders for the checks of the kanji data"""
from common import *
import datagen as G
def fields(D):
    q = []
    for p, t in G.files(D).items(): q += [hx(p), hx(t)]
    return q
LINE = {'report': lambda e: ['kd.report', hx(e['opt'])] + fields(e['D']), 'load': lambda e: ['kd.load'] + fields(e['D']), 'find': lambda e: ['kd.find', hx(e['n'])], 'freq': lambda e: ['kd.freq', e['i']], 'list': lambda e: ['kd.list', e['i']],
        'moro': lambda e: ['kd.moro', hx(e['t'])], 'nelson': lambda e: ['kd.nelson', e['i']], 'info': lambda e: ['kd.info', hx(e['n']), e['f']],
        'order': lambda e: ['kd.order'] + [hx(n) for n in e['a']], 'sort': lambda e: ['kd.sort', e['how']] + [hx(n) for n in e['a']]}
def recorder_kd(exe):
    def rec(inputs):
        rep = vt.run_sessions(exe, [[LINE[e['op']](e) for e in h] for h in inputs])
        return [dict(init=0, steps=[dict(e, r=r) for e, r in zip(h, rs)]) for h, rs in zip(inputs, rep)]
    return rec

def placed(h):
    """the directory of a placement enumerated by MCKanjiData"""
    row = lambda n, joyo, jinmei, link: dict(Code=G.U.hexc(n), Name=n, Block='', Version='', Radical='1', Strokes='2', VStrokes='', Pinyin='', MorohashiId='', NelsonIds='', Sources='', JSource='', Joyo='Y' if joyo else '',
        Jinmei='Y' if jinmei else '', LinkCodes=G.U.hexc(link) if link else '', LinkNames=link, LinkType='Jinmei' if link else '', Meaning='m', On='A', Kun='', Japanese='')
    B, M, X, Y, P, Q = '一丁七万丈三'
    q = [(X, set(h['x']), P), (Y, set(h['y']), Q)]
    names = lambda k: [n for n, s, l in q if k in s]
    num = lambda n, old: dict(Number='1', Name=n, Radical=G.RADN[0], OldNames=','.join(old), Year='', Strokes='2', Grade='1', Meaning='m', Reading='ア', Reason='Names')
    jin = lambda s: bool(s & {'lnk', 'jin', 'jold'}) and 'jou' not in s
    D = dict(radicals=G.RADN[:3], freqr=[], ucd=[row(B, 1, 0, ''), row(M, 0, 1, '')] + [row(n, 'jou' in s, jin(s), l if jin(s) else '') for n, s, l in q],
             jouyou=[num(B, names('old'))] + [num(n, []) for n in names('jou')], linked=[dict(jouyou=B, linked=n, bad=False, line='') for n in names('lnk')],
             jinmei=[num(M, names('jold'))] + [num(n, []) for n in names('jin')], extra=[num(n, []) for n in names('ext')],
             levels=[[B], [M]] + [[]] * 3, freq=[dict(n=n, pos=i + 1) for i, n in enumerate([B, M] + names('frq'))], kyus=[[B], [M]] + [[]] * 9 + [names('kyu')])
    return G.finish(D)
