"""D03: the script that compares code points of the Unicode database. UcdDiff.tla is its command line and output over a set of files;
MCUcdDiff checks on every command line of up to four tokens that it is refused with one message or shows exactly what differs, and that
swapping the code points swaps the sides. Those command lines and random ones (other files, default files present or not, code points as hex or
as a character) run the real script; what it prints is compared."""
from common import *
import re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from d02 import SCRIPTS, ENV
OLD, NEW = '@/ucd/15/ucd.all.flat.xml', '@/ucd/15.1/ucd.all.flat.xml'
GEN = ['age', 'blk', 'sc', 'Ideo', 'Radical']
class Bad(Exception): pass
def need(m, what):
    if not m: raise Bad(what)
    return m
def fld(l):
    m = need(re.fullmatch(r'([A-Za-z0-9_]+)="([^"]*)"', l), 'field ' + l)
    return dict(n=m[1], v=m[2], k=bool(re.match('k[A-Z]', m[1])))
def shown(l):
    m = need(re.fullmatch(r'([A-Za-z0-9_]+): ([^"]*)', l), 'shown field ' + l)
    return dict(n=m[1], v=m[2], k=bool(re.match('k[A-Z]', m[1])))
def code(c, ch):
    if '%04X' % ord(ch) != c: raise Bad(f'{ch} is not {c}')
    return c
def parse(p, d):
    out = p.stdout.replace(d, '@'); L = out.split('\n')
    if L.pop() != '': raise Bad('no end of line: ' + out[-80:])
    m = re.fullmatch(r'ucdDiff\.sh: (.*)', L[0]) if L else None
    if m:
        if p.returncode != 1 or len(L) < 10 or L[1] != '' or not L[2].startswith('usage: ucdDiff.sh [-f ') or not L[-1].startswith('unicode values like'): raise Bad('usage: ' + out)
        return dict(fail=m[1])
    if L == ['no diffs found']: return dict(fail='', show='same', sides=[])
    m = re.fullmatch(r"Code ([0-9A-F]{4,6}) \((.)\)(, .*)", L[0]) if L else None
    if m:
        h = m[3].split(', ')
        if len(h) != 6 or h[0]: raise Bad('general fields ' + L[0])
        return dict(fail='', show='cjk', code=code(m[1], m[2]), head=[shown(x) if x else dict(n='', v='', k=False) for x in h[1:]], fields=[shown(l) for l in L[1:]])
    m = re.fullmatch(r"Code ([0-9A-F]{4,6}) \((.)\) from '(.*)'", L[0]) if L else None
    need(m, 'first line of ' + out[:200])
    if len(L) > 1 and L[1].startswith(' '):
        S = []
        for l in L:
            m = re.fullmatch(r"Code ([0-9A-F]{4,6}) \((.)\) from '(.*)'", l)
            if m: S.append(dict(code=code(m[1], m[2]), file=m[3], fields=[]))
            else:
                if l[:2] != '  ': raise Bad('indent ' + l)
                S[-1]['fields'].append(fld(l[2:]))
        return dict(fail='', show='diff', sides=S)
    return dict(fail='', show='all', code=code(m[1], m[2]), file=m[3], fields=[shown(l) for l in L[1:]])
def one(i):
    w, runs = i; d = tempfile.mkdtemp(dir=vt.workdir())
    try:
        for f, rs in w['disk'].items():
            f = f.replace('@', d); f = os.path.join(d, f); os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, 'w') as o:
                o.write('<?xml version="1.0"?>\n<ucd>\n')
                for cp, fs in rs.items(): o.write(f'<char cp="{cp}" ' + ' '.join(f'{x["n"]}="{x["v"]}"' for x in fs) + '/>\n')
                o.write('</ucd>\n')
        steps = []
        for a in runs:
            try:
                p = subprocess.run(['bash', SCRIPTS + '/ucdDiff.sh'] + [x['s'].replace('@', d) for x in a], capture_output=True, env=dict(ENV, HOME=d), timeout=60, cwd=d, text=True)
                r = dict(v=parse(p, d))
            except (Bad, subprocess.TimeoutExpired, UnicodeDecodeError) as e: r = dict(crash=str(e)[:400])
            steps.append(dict(op='run', args=a, r=r))
        return dict(init=w, steps=steps)
    finally: shutil.rmtree(d)
def record(inputs):
    with ThreadPoolExecutor(vt.NPROC) as ex: return list(ex.map(one, inputs))
def F(n, v): return dict(n=n, v=v, k=bool(re.match('k[A-Z]', n)))
def tok(s, code='', many=False): return dict(s=s, code=code, many=many)
def named(cp, how): return tok(chr(int(cp, 16)) if how == 'c' else cp.lower() if how == 'l' else cp, cp)
def world(rng):
    cps = rng.sample(['4E00', '72AC', '732B', '3400', '4DB5', '20B9F', '9FA5', 'F900', '2F800', '4E0A'], rng.randint(1, 4))
    names = GEN + ['na', 'kA', 'kIRG_JSource', 'kRSUnicode', 'kMandarin', 'kDefinition', 'kTotalStrokes', 'kSemanticVariant']
    base = {n: rng.choice(['', '1.1', 'CJK', 'U+4E00&lt;kMatthews', 'one; two (same as 一) it\'s', '1.0 <x>', 'lǜ']) for n in names}
    def rec():
        q = [n for n in names if rng.random() < .8]
        if not q: q = ['age']
        return [F(n, base[n] if rng.random() < .75 else rng.choice(['', '3.0', 'x', 'a > b'])) for n in q]
    files = [f for f in ['F1', 'sub/f2.xml', 'F3', OLD, NEW] if rng.random() < .7] or ['F1']
    first = {}
    disk = {}
    for f in files:
        disk[f] = {}
        for cp in cps:
            if rng.random() < .85:
                disk[f][cp] = [dict(x) for x in first[cp]] if cp in first and rng.random() < .3 else rec()
                first.setdefault(cp, disk[f][cp])
        if not disk[f]: disk[f] = {'4E00': [F('age', '1.1')]}
    return dict(disk=disk, old=OLD, new=NEW), cps
def args(rng, w, cps):
    fs = list(w['disk']) + ['none', 'sub']
    f = lambda: tok(rng.choice(fs if rng.random() < .2 else fs[:-2]))
    c = lambda: named(rng.choice(cps), rng.choice('clu')) if rng.random() < .85 else rng.choice([tok('4E0'), tok('4E00F0'), tok('G000'), tok('F4E00'), tok('犬猫', '', True), tok('aA'), tok('4E02', '4E02'), tok('犬', '72AC'), tok('x犬', '', True), tok('-x'), tok('0'), tok('100AB', '100AB')])
    a = []
    if rng.random() < .45:
        a = [tok('-d')]
        for _ in range(rng.choice([0, 1, 2, 2, 2, 3])): a += [tok(rng.choice(['-o', '-n'])), f()]
    else:
        for _ in range(rng.choice([0, 1, 1, 1, 2])): a += [tok('-f'), f()]
        if rng.random() < .35: a.insert(rng.choice([0, len(a)]), tok('-p'))
    a += [c() for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 2, 3]))]
    if rng.random() < .06: a.insert(rng.randint(0, len(a)), tok(rng.choice(['-d', '-p', '-f', '-o'])))
    return a
MT = [tok('-d'), tok('-o'), tok('-n'), tok('-f'), tok('-p'), tok('F1'), tok('F2'), tok('F3'), tok('4e00', '4E00'), tok('丁', '4E01'), tok('20000', '20000'), tok('4E02', '4E02'), tok('4E0'), tok('丁丁', '', True)]
def run(c):
    rng = c.rng
    H = vt.prints(c.model('MCUcdDiff', cfg='MCUcdDiffT' if c.thorough else None, timeout=700), 'HIST ')
    ok = [h for h in H if len(h) < 3 or any(x > 8 for x in h[1:])]
    H = rng.sample(ok, min(len(ok), c.n(1500, 20000)))
    H += [[4, f, a, b] for f in (6, 7) for a in range(9, 15) for b in range(9, 15)] + [[1, 3, f, a] for f in (6, 7) for a in range(9, 15)]
    c.cov['model_histories_replayed'] = len(H)
    A1 = [F('age', '1.1'), F('kA', 'x'), F('kB', '')]; A2 = [F('age', '1.1'), F('kA', 'y'), F('kB', '')]; B1 = [F('age', '3.0'), F('kA', 'x')]
    f1 = {'4E00': A1, '4E01': B1, '20000': A1}; w = dict(disk={'F1': f1, 'F2': {'4E00': A2, '4E01': B1}, OLD: f1}, old=OLD, new=NEW)
    c.check('TraceUcdDiff', record, [(w, b) for b in chunks([[MT[x - 1] for x in h] for h in H], 60)], label='command lines of the model')
    ins = []
    for _ in range(c.n(120, 2500)):
        w, cps = world(rng); ins.append((w, [args(rng, w, cps) for _ in range(10)]))
    c.check('TraceUcdDiff', record, ins, label='command lines')
