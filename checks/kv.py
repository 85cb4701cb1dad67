"""recording of converter sessions, and text generators for K02 / K03"""
from common import *
import re, itertools, string
T = ['Hiragana', 'Katakana', 'Romaji']
src = open(vt.SPEC + '/KanaTab.tla', encoding='utf-8').read()
TAB = [(m[1], m[2], m[3], re.findall(r'"(\w+)"', m[4])) for m in re.finditer(r'\[r \|-> "(\w+)", h \|-> "(\w+)", k \|-> "(\w+)", .*?var \|-> <<(.*?)>>', src)]
assert len(TAB) == 204
HIRA = sorted({x for t in TAB for x in t[1]}); KATA = sorted({x for t in TAB for x in t[2]})
NARROW = ''' !"#$%&()*+,./0123456789:;<=>?@[\\]^_`{|}~'''
WIDE = '　！”＃＄％＆（）＊＋、。・０１２３４５６７８９：；＜＝＞？＠「￥」＾＿｀『｜』〜'
OTHER = ['漢', '々', '〇', 'é', '𠀋', 'Ａ', 'ｱ', 'ゟ', 'ヿ', 'ヷ', '゠', 'Ō', '…', 'ẞ', '\u309b', 'ǖ', '€']
MARKS = ['ー', 'ゝ', 'ゞ', 'ヽ', 'ヾ']
def record_with(exe):
    def line(e):
        o = e['op']
        if o == 'new': return ['cv.new', e['target'] or '-', e['flags'] if e['flags'] >= 0 else '-']
        if o in ('target', 'flags'): return ['cv.' + o, e[o]]
        return ['cv.convert', e['src'] or '-', hx(''.join(e['cs'])), e['target'] or '-', e['flags'] if e['flags'] >= 0 else '-']
    def rec(inputs):
        rep = vt.run_sessions(exe, [[line(e) for e in h] for h in inputs])
        return [dict(init=0, steps=[dict(e, r=r) for e, r in zip(h, rs)]) for h, rs in zip(inputs, rep)]
    return rec
def convert(cs, src='', target='', flags=-1): return dict(op='convert', src=src, cs=list(cs), target=target, flags=flags)
def sessions(rng, convs, n=60):
    """convs: (src, text, target, flags); grouped into sessions of one converter in which target and flags are set in different ways"""
    out = []
    for b in chunks(convs, n):
        t0, f0 = rng.choice(['', *T]), -1
        if t0: f0 = rng.choice([-1, *range(16)])
        h = [dict(op='new', target=t0, flags=f0)]
        cur = (t0 or 'Hiragana', max(f0, 0))
        for s, text, t, f in b:
            if cur == (t, f) and rng.random() < .7: h.append(convert(text, s))
            else:
                x = rng.random()
                if x < .6 or (f == 0 and x < .7): h.append(convert(text, s, t, -1 if f == 0 and x >= .4 else f))
                else:
                    if cur[0] != t or rng.random() < .3: h.append(dict(op='target', target=t))
                    if cur[1] != f or rng.random() < .3: h.append(dict(op='flags', flags=f))
                    h.append(convert(text, s))
            cur = (t, f)
        out.append(h)
    return out
