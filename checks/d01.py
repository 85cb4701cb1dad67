"""D01: the script that derives the blocks of wide characters. WideScript.tla reads EastAsianWidth.txt line by line; MCWideScript checks on
every ascending file of a few lines that the blocks cover exactly the wide code points, in order, and that no two blocks touch. Those files
and random ones (comments, every width, single code points and ranges, planes 0 to 16) go through the real script; what it prints is compared
and must be the C++ text the header takes."""
from common import *
import re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from d02 import SCRIPTS, ENV
def text(rng, lines):
    o = []
    for l in lines:
        if not l['w']: o.append(rng.choice(['', '# comment', '# @missing: 4E00..9FFF;W', '#4E00;W', '   ']))
        else:
            x = f'{l["lo"]:04X}' + ('' if l['lo'] == l['hi'] else f'..{l["hi"]:04X}') + ';' + l['w']
            o.append(x + rng.choice(['', '     # Lo   [123] CJK', '  # So  A;W', '# ;F ', '  # a # b', ' # x;W # y']))
    return '\n'.join(o) + '\n'
def one(a):
    e, txt = a
    d = tempfile.mkdtemp(dir=vt.workdir())
    try:
        args = []
        if e['op'] == 'file':
            with open(d + '/EastAsianWidth.txt', 'w') as f: f.write(txt)
            args = [d + '/EastAsianWidth.txt']
        try: p = subprocess.run(['bash', SCRIPTS + '/parseEastAsianWidth.sh'] + args, capture_output=True, env=ENV, timeout=100, cwd=d, text=True)
        except subprocess.TimeoutExpired: return dict(e, r=dict(crash='hang'))
        if p.stderr: return dict(e, r=dict(crash=p.stderr[:300]))
        L = p.stdout.split('\n')
        if e['op'] == 'none': return dict(e, r=dict(v=dict(rc=p.returncode, msg='\n'.join(L[:-1]), blocks=[])))
        m = lambda x: rf"// --- {x} generated code from '\w+\.sh' ---"
        if len(L) < 5 or L[-1] != '' or not re.fullmatch(m('begin'), L[0]) or L[1] != 'inline constexpr std::array WideBlocks{' or L[-3] != '};' or not re.fullmatch(m('end'), L[-2]): return dict(e, r=dict(crash='frame: ' + p.stdout[:300]))
        b = []
        for i, l in enumerate(L[2:-3]):
            g = re.fullmatch(r'  makeBlock<0x([0-9A-F]+)(?:, 0x([0-9A-F]+))?>\(\)' + (',' if i < len(L) - 6 else ''), l)
            if not g: return dict(e, r=dict(crash='line ' + l))
            if g[2] is not None and g[1] == g[2]: return dict(e, r=dict(crash='a range of one: ' + l))
            b.append([int(g[1], 16), int(g[2] or g[1], 16)])
        return dict(e, r=dict(v=dict(rc=p.returncode, msg='', blocks=b)))
    finally: shutil.rmtree(d)
def record(inputs):
    with ThreadPoolExecutor(vt.NPROC) as ex: return [dict(init=0, steps=[x]) for x in ex.map(one, inputs)]
def randlines(rng, n):
    at, L = rng.choice([0, 0x20, 0x1100, 0x2e80, 0xffe0, 0x1f300, 0x20000]), []
    for _ in range(n):
        if rng.random() < .12: L.append(dict(lo=0, hi=0, w='')); continue
        at += rng.choice([1, 1, 1, 1, 2, 3, 16, 256, 0x1000])
        lo = at; at += rng.choice([0, 0, 0, 1, 2, 15, 255, 0x3fff])
        if at > 0x10ffff: break
        L.append(dict(lo=lo, hi=at, w=rng.choice(['W', 'W', 'W', 'F', 'F', 'N', 'Na', 'H', 'A'])))
    return L
def run(c):
    rng = c.rng
    H = vt.prints(c.model('MCWideScript', cfg='MCWideScriptT' if c.thorough else None, timeout=700), 'HIST ')
    H = rng.sample(H, min(len(H), c.n(500, 8000)))
    c.cov['model_histories_replayed'] = len(H)
    E = [dict(op='file', lines=[dict(l, lo=l['lo'] + 0x3000, hi=l['hi'] + 0x3000) for l in h]) for h in H] + [dict(op='none')] + [dict(op='file', lines=randlines(rng, rng.choice([0, 1, 2, 3, 8, 20, 60]))) for _ in range(c.n(400, 6000))]
    c.check('TraceWideScript', record, [(e, text(rng, e['lines']) if e['op'] == 'file' else '') for e in E], label='files')
