"""D02: the script that derives ucd.txt from the Unicode database. UcdScript.tla is the run as a state machine (populate, link, print) on the
records of the XML file; MCUcdScript checks on every file of up to three records that rows only have readings some record has, that '*' marks
borrowed ones, that links lead to kanji with readings or ids and that the order of records and unrelated records do not matter. Those files
and random ones (every attribute, long definitions, links of every type) go through the real script; all it
writes and prints is compared."""
from common import *
import re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
SCRIPTS = os.path.join(os.environ.get('KT_REPO', '/repo'), 'scripts')
ENV = dict(os.environ, LANG='C.UTF-8', LC_ALL='C.UTF-8', PATH=os.path.join(vt.VERIF, 'harness/bin') + ':' + os.environ['PATH'])
TYPES = ['variant', 'interchangeable', 'same', 'non-classical', 'Variant', 'standard', 'simplified', 'ancient']
ch = lambda cp: chr(int(cp, 16))
def tdef(d):
    return ')'.join(''.join(ch(x['v']) if x['k'] == 'u' else 'U+' + x['v'] if x['k'] == 'h' else x['v'] for x in s) for s in d)
def xml(q):
    o = [f'<char cp="{q["cp"]}" age="{q["age"]}" blk="{q["blk"]}"']
    def a(n, v, always=False):
        if v or always: o.append(f'{n}="{v}"')
    for l in 'GHJKTV': a(f'kIRG_{l}Source', q['srcs'][l], True)
    a('kRSUnicode', q['rad'] + ("'" * q['primes']) + '.' + q['rest'])
    a('kTotalStrokes', ' '.join(map(str, q['strokes'])))
    a('kRSAdobe_Japan1_6', ' '.join(f'{"CV"[i > 0]}+{1000 + i}+{x["rad"]}.{x["y"]}.{x["z"]}' for i, x in enumerate(q['adobe'])))
    a('kMandarin', ' '.join(q['pinyin']))
    a('kJapaneseKun', q['kun']); a('kJapaneseOn', q['on']); a('kJapanese', q['jap'])
    a('kMorohashi', ' '.join(map(''.join, q['moro']))); a('kNelson', ' '.join(map(''.join, q['nelson'])))
    a('kJoyoKanji', dict(y='2010', u='U+' + q['joyo']['to']).get(q['joyo']['k']))
    a('kJinmeiyoKanji', dict(y='2010', u='2010:U+' + q['jin']['to']).get(q['jin']['k']))
    a('kTraditionalVariant', ' '.join('U+' + x for x in q['trad'])); a('kSimplifiedVariant', ' '.join('U+' + x for x in q['simp']))
    a('kCompatibilityVariant', q['compat'] and 'U+' + q['compat'])
    a('kSemanticVariant', ' '.join('U+' + x + q['semtail'][i] for i, x in enumerate(q['sem'])))
    a('kDefinition', q['text'])
    return ' '.join(o) + '/>\n'
NOISE = ['<?xml version="1.0"?>\n', '<ucd>\n', '<char cp="0041" age="1.1" blk="ASCII" na="LATIN"/>\n']
class Bad(Exception): pass
def need(m, what):
    if not m: raise Bad(what)
    return m
def parse(p, out, recs):
    if p.returncode or p.stderr: raise Bad(f'exit {p.returncode} {p.stderr[:200]}')
    L = p.stdout.split('\n'); at = [0]
    def line(rx):
        l = L[at[0]] if at[0] < len(L) else ''; at[0] += 1
        return need(re.fullmatch(rx, l), f'line {at[0]}: {l!r} is not {rx!r}')
    T = r'\d\d:\d\d:\d\d: '
    line(T + r"Begin parsing '(.*)'")
    m = line(T + r'Populate arrays \.\.\. Reading (\d+), Morohashi (\d+), JSource (\d+)'); a = [int(x) for x in m.groups()]
    found = int(line(T + r'Find definition links \.\.\. found (\d+)')[1])
    steps = [dict(op='file', recs=recs, r=dict(v=dict(readings=a[0], moro=a[1], js=a[2], found=found)))]
    line(r'  Types: 8\s+Total( +utf uni){3}\s*')
    for t in sorted(TYPES):
        m = line(rf"    '{t}'\s+(\d+)" + r'\s+\(\s*(\d+),\s*(\d+)\)' * 3 + r'\s*'); g = [int(x) for x in m.groups()]
        steps.append(dict(op='type', type=t, r=dict(v=dict(total=g[0], c=[g[1:3], g[3:5], g[5:7]]))))
    steps.append(dict(op='manual', r=dict(v=int(line(r'    \(manually set\)\s+(-?\d+)')[1]))))
    wrote = int(line(T + r"Print results to '.*' \.\.\. wrote (\d+)")[1])
    line(T + 'Done'); tot = dict(wrote=wrote)
    for k, n, w in [('js', 'Unique JSource', 16222), ('moro', 'Unique Morohashi', 49019), ('nelson', 'Unique Nelson ID', 5442), ('joyo', 'Total Jouyou', 2136), ('jin', 'Total Jinmei', 633), ('kinds', 'Jinmei Links', 230)]:
        tot[k] = int(line(re.escape(n) + rf': (\d+) \*\*\* expected {w} \*\*\*')[1])
    line('Other Links:')
    m = line(r'  Traditional (\d+), Simplified (\d+), Compatibility (\d+), Definition (\d+), Semantic (\d+)')
    tot['kinds'] = [tot['kinds']] + [int(x) for x in m.groups()]
    line('Other Fields:')
    m = line(r'  Meaning (\d+), Pinyin (\d+), Reading (\d+) \(Direct (\d+) Linked (\d+) Manual (-?\d+)\)')
    g = [int(x) for x in m.groups()]
    tot.update(meaning=g[0], pinyin=g[1], reading=g[2], direct=g[3], linked=g[4])
    if g[5] != g[2] - g[3] - g[4]: raise Bad('manual readings ' + m[0])
    line('')
    if at[0] != len(L): raise Bad('more output: ' + L[at[0]])
    rows = open(out, encoding='utf-8').read().split('\n')
    if rows[0].split('\t') != 'Code Name Block Version Radical Strokes VStrokes Pinyin MorohashiId NelsonIds Sources JSource Joyo Jinmei LinkCodes LinkNames LinkType Meaning On Kun Japanese'.split(): raise Bad('heading ' + rows[0])
    if rows[-1] != '': raise Bad('no end of line')
    code = lambda s: ['%04X' % ord(x) if len(x) == 1 else x for x in s]
    for l in rows[1:-1]:
        f = l.split('\t')
        if len(f) != 21: raise Bad('columns ' + l)
        ls = lambda x: x.split(',') if x else []
        steps.append(dict(op='row', r=dict(v=dict(cp=f[0], name=code([f[1]])[0], blk=f[2], age=f[3], rad=f[4], strokes=f[5], vstrokes=f[6], pinyin=f[7], moro=f[8], nelson=ls(f[9]),
            srcs=list(f[10]), js=f[11], joyo=f[12], jin=f[13], links=ls(f[14]), names=code(ls(f[15])), type=f[16], meaning=f[17], on=f[18], kun=f[19], jap=f[20]))))
    steps.append(dict(op='end', r=dict(v=tot)))
    return steps
def spec_rec(q): return {k: v for k, v in q.items() if k not in ('primes', 'semtail')}
def one(recs, noise=True):
    d = tempfile.mkdtemp(dir=vt.workdir()); clean = [spec_rec(q) for q in recs]
    try:
        with open(d + '/in.xml', 'w') as f:
            f.write(''.join(NOISE))
            for q in recs: f.write(xml(q))
            f.write('</ucd>\n')
        try:
            p = subprocess.run(['bash', SCRIPTS + '/parseUcdAllFlat.sh', d + '/in.xml', d + '/out.txt'], capture_output=True, env=ENV, timeout=100, cwd=d, text=True)
            steps = parse(p, d + '/out.txt', clean)
        except (Bad, subprocess.TimeoutExpired, UnicodeDecodeError) as e: steps = [dict(op='file', recs=clean, r=dict(crash=str(e)[:400]))]
        return dict(init=0, steps=steps)
    finally: shutil.rmtree(d)
def usage(args):
    d = tempfile.mkdtemp(dir=vt.workdir())
    try:
        p = subprocess.run(['bash', SCRIPTS + '/parseUcdAllFlat.sh'] + args, capture_output=True, env=ENV, timeout=100, cwd=d, text=True)
        return dict(init=0, steps=[dict(op='use', want=dict(rc=1, usage=True, err='', files=0), r=dict(v=dict(rc=p.returncode, usage=p.stdout.startswith("usage: parseUcdAllFlat.sh 'input file' 'output file'"), err=p.stderr, files=len(os.listdir(d)))))])
    finally: shutil.rmtree(d)
def record(inputs):
    with ThreadPoolExecutor(vt.NPROC) as ex: return list(ex.map(lambda i: usage(i) if i and isinstance(i[0], str) or i == [] else one(i), inputs))
def base(cp): return dict(cp=cp, age='1.1', blk='CJK', rad='1', simple=False, primes=0, rest='2', srcs={l: '' for l in 'GHJKTV'}, strokes=[3], adobe=[], pinyin=[], on='', kun='', jap='', moro=[], nelson=[],
    joyo=dict(k='', to=''), jin=dict(k='', to=''), trad=[], simp=[], compat='', sem=[], semtail=[], **{'def': [], 'text': ''})
t = lambda v: dict(k='t', v=v)
c_ = lambda v=' ': dict(k='c', v=v)
u = lambda v: dict(k='u', v=v)
h = lambda v: dict(k='h', v=v)
x_ = lambda v='(': dict(k='x', v=v)
def form(f, cp, b, c):
    """the records of MCUcdScript"""
    z = base(cp); own = f in (1, 10, 11, 12, 13, 14, 16, 18)
    if own: z.update(on='ON' + cp, text='m')
    if f in (3, 4, 7, 8, 9, 17): z['moro'] = [list("01'")]
    def D(*d): z['def'] = list(d); z['text'] = tdef(d)
    y = lambda k, to='': dict(k=k, to=to)
    if f == 4: D([x_(), t('same'), c_(), u(b), u(c)], [])
    if f == 5: D([x_(), t('same'), c_(), u(c)], [x_(' ('), t('variant'), c_(), h(b)], [])
    if f == 6: z['trad'] = [cp, b, c]
    if f == 7: z['trad'] = [c]; z['simp'] = [b]
    if f == 8: z['simp'] = [cp, c, b]
    if f == 9: z['compat'] = b; z['sem'] = [c]
    if f == 10: z['sem'] = [b]; z['trad'] = [c]
    if f == 11: z['jin'] = y('u', b)
    if f == 12: z['jin'] = y('y')
    if f == 13: z['joyo'] = y('u', b)
    if f == 14: z['joyo'] = y('y')
    if f == 15: z['nelson'] = [list('07')]; D([x_(), t('variant'), c_(), u(b), x_('; '), t('variant'), c_(' of '), t('same'), c_(), u(c)], [])
    if f == 16: z['simple'] = True; z['primes'] = 1
    if f == 17: z['sem'] = [b, c]; z['srcs']['J'] = 'J0'
    if f == 18: D([x_(), t('Variant'), c_(), h(b), x_('; '), t('same'), c_(), t('Variant'), c_(), u(c)], [])
    z['semtail'] = [''] * len(z['sem'])
    return z
MANL = {'3D4E': '6F97', '5ECF': '5ED0', '9D25': '9D2A', '6AA8': '69D8'} # (the script links these: the second has readings)
MANR = '34E4 3C7E 3C83 4BC2 6479 6532 6663 69D4 7B53 7CF1 83C6'.split()
NOLINK = '4E98 51DC 5C2D 5DCC 6643 6867 69D9 6E1A 732A 7422 7950 7962 7977 7984 798E 7A63 840C 9065'.split()
READ = ['ICHI', 'ITSU', 'HITOTSU', 'KEI KYOU', 'SHOU JOU', 'U', 'TSUBASA', 'KATAMUKU SOBADATERU', 'A']
def randfile(rng, n):
    pool = []
    while len(pool) < n:
        x = rng.random()
        cp = rng.choice(list(MANL)) if x < .05 else rng.choice(MANR) if x < .16 else rng.choice(NOLINK) if x < .22 else '%04X' % (rng.randint(0x3400, 0x9fff) if x < .85 else rng.choice([0x20000 + rng.randint(0, 0xa000), 0xf900 + rng.randint(0, 300), 0x2f800 + rng.randint(0, 500), 0x30000 + rng.randint(0, 99)]))
        for z in [cp, MANL[cp]] if cp in MANL else [cp]:
            if z not in pool: pool.append(z)
    if rng.random() < .7: pool.sort(key=lambda x: int(x, 16))
    R = {cp: base(cp) for cp in pool}; p = rng.choice([.2, .5, .8])
    other = lambda cp: rng.choice([x for x in pool if x != cp]) if len(pool) > 1 and rng.random() < .93 else '%04X' % rng.randint(0x4e00, 0x5eb0)
    some = lambda cp, m=3: list(dict.fromkeys(other(cp) for _ in range(rng.randint(1, m))))
    pq = rng.choice([.05, .2, .5])
    for cp in pool:
        q = R[cp]
        q['age'] = rng.choice(['1.1', '3.0', '13.0', '15.1']); q['blk'] = rng.choice(['CJK', 'CJK_Ext_A', 'CJK_Compat_Ideographs'])
        q['rad'] = str(rng.choice([rng.randint(1, 214), 1, 12, 9, 199, 211, 120])); q['rest'] = str(rng.choice([0, 1, 2, 5, 10, 17]))
        if rng.random() < .12: q['simple'] = True; q['primes'] = rng.choice([1, 1, 2])
        q['strokes'] = [rng.randint(1, 30) for _ in range(rng.choice([1, 1, 2]))]
        for l in 'GHJKTV':
            if rng.random() < .4: q['srcs'][l] = l + rng.choice(['0-523B', '1-3021', 'A-0001', '3A-2E21'])
        if rng.random() < p:
            if rng.random() < .8: q['on'] = rng.choice(READ)
            if rng.random() < .6 or not q['on']: q['kun'] = rng.choice(READ)
        if rng.random() < .4: q['jap'] = rng.choice(['いち', 'ケイ きょう', 'は'])
        if rng.random() < .5:
            m = lambda: list('0' * rng.choice([0, 0, 1, 3]) + str(rng.randint(1, 49999)) + rng.choice(['', '', '', "'", "''", ':E0101']))
            q['moro'] = [m() for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < .06: q['moro'] = [list('00000')]
            if rng.random() < .06: q['moro'] = [list('H' + str(rng.randint(1, 800)))]
        if rng.random() < .3: q['nelson'] = [list('0' * rng.choice([0, 1, 3]) + str(rng.choice([rng.randint(1, 5440), 10, 200, 1005]))) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < .6: q['pinyin'] = [rng.choice(['yī', 'wàn', 'lǜ', 'zhāng']) for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < .5:
            r = int(q['rad']) if rng.random() < .6 else rng.randint(1, 214); z = int(q['rest']) if rng.random() < .7 else rng.randint(0, 12); y = rng.choice([1, 2, 3, 4])
            q['adobe'] = [dict(rad=r, y=y, z=z)]
            for _ in range(rng.choice([0, 1, 1, 2, 3])): q['adobe'].append(dict(rad=r if rng.random() < .7 else rng.randint(1, 214), y=y if rng.random() < .7 else rng.randint(1, 5), z=z if rng.random() < .4 else int(q['rest']) if rng.random() < .6 else rng.randint(0, 12)))
            if rng.random() < .6: a = rng.choice(q['adobe']); q['strokes'][0] = a['y'] + a['z']
    for k, v in MANL.items():
        if k in R:
            R[v]['simple'] = False; R[v]['primes'] = 0
            R[v]['on'] = R[v]['on'] or 'KAN'
    for cp in pool:
        q = R[cp]; own = q['on'] + q['kun']; x = rng.random()
        if own and x < .15: q['joyo'] = dict(k='y', to='')
        elif own and x < .2: q['joyo'] = dict(k='u', to=other(cp))
        elif x < .3 and cp not in NOLINK or own and x < .4:
            to = other(cp)
            k = 'u' if own or to in R and (R[to]['on'] or R[to]['kun']) and not (R[to]['simple'] and R[to]['rad'] not in ('199', '211')) else 'y' # (a variant without readings has a standard form that has some)
            q['jin'] = dict(k=rng.choice([k, k, 'y']), to='')
            if q['jin']['k'] == 'u': q['jin']['to'] = to
            if own and rng.random() < .1: q['joyo'] = dict(k='y', to='')
        if rng.random() < pq: q['trad'] = some(cp) + ([cp] if rng.random() < .3 else []); rng.shuffle(q['trad'])
        if rng.random() < pq: q['simp'] = ([cp] if rng.random() < .3 else []) + some(cp)
        if rng.random() < pq * .6: q['compat'] = other(cp)
        if rng.random() < pq: q['sem'] = some(cp)
        q['semtail'] = [rng.choice(['', '', '&lt;kMatthews', '&lt;kFenn,kHanYu:T']) for _ in q['sem']]
        d = []
        if rng.random() < .6:
            for i in range(rng.randint(1, 5)):
                s = [x_(rng.choice(['(', ' (', 'A (', '; (']))] if rng.random() < .8 else []
                for j in range(rng.choice([0, 1, 1, 2, 2])):
                    if j: s.append(x_(rng.choice(['; ', ' (', ' A', '. '])))
                    if rng.random() < .8:
                        s.append(t(rng.choice(TYPES)))
                        if rng.random() < .93: s.append(c_(rng.choice([' ', ' as ', ' form of ', ', ', ' of ', ' with '])))
                        if rng.random() < .15: s += [t(rng.choice(TYPES)), c_(rng.choice([' ', ' as ']))]
                    else: s.append(c_(' ten, one '))
                    y = rng.random()
                    if y < .5: s += [u(other(cp)) for _ in range(rng.choice([1, 1, 2, 3]))]
                    elif y < .8: s.append(h(other(cp)))
                    if y < .8 and rng.random() < .3: s.append(c_(rng.choice([' or ', ', '])));  s.append(u(other(cp))) if rng.random() < .5 else s.append(h(other(cp)))
                if not s or s[-1]['k'] != 'h' or rng.random() < .5: s += [x_('; '), c_(' a foot,  two-legged')][:rng.choice([0, 1, 2])] if s else [c_(' one')]
                d.append(s)
            if rng.random() < .7: d.append([])
        for s in d: # (single spaces)
            for j, i in enumerate(s):
                if i['k'] in 'cx': i['v'] = re.sub(' +', ' ', i['v'])
                if j and i['k'] in 'cx' and s[j - 1]['k'] in 'cx' and s[j - 1]['v'].endswith(' ') and i['v'].startswith(' '): s[j - 1]['v'] = s[j - 1]['v'][:-1]
        q['def'] = d; q['text'] = tdef(d)
    return [R[cp] for cp in pool]
def run(c):
    rng = c.rng
    R = c.model('MCUcdScript', cfg='MCUcdScriptT' if c.thorough else None, timeout=700)
    H = vt.prints(R, 'HIST ')
    H = rng.sample(H, min(len(H), c.n(1800, 12000)))
    c.cov['model_histories_replayed'] = len(H)
    N = 60
    ins = []
    for i in range(0, len(H), N):
        codes = rng.sample(['%04X' % x for x in range(0x4e00, 0x9ff0) if '%04X' % x not in list(MANL) + MANR + NOLINK], 4 * N)
        b = []
        for j, w in enumerate(H[i:i + N]):
            C = codes[4 * j:4 * j + 4]; m = 4 if c.thorough else 3
            b += [form(f, C[k], C[(k + 1) % m], C[(k + 2) % m]) for k, f in enumerate(w)]
        ins.append(b)
    c.check('TraceUcdScript', record, ins, label='files of the model')
    ins = [[], ['a.xml']] + [randfile(rng, rng.choice([1, 2, 3, 6, 12, 25, 60])) for _ in range(c.n(220, 4000))]
    c.check('TraceUcdScript', record, ins, label='files')
