"""K06: the furigana formatter. Format.tla reads a file line by line holding a line that ends with a kanji; MCFormat checks on every
file of a few lines that no text is lost or reordered. Those files and random ones (every kind of character, invalid bytes, with and
without a final line end, long lines) are formatted by the real binary; missing files, directories and a missing argument are refused."""
from common import *
import subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
def record_with(app):
    def one(e):
        d = tempfile.mkdtemp(dir=vt.workdir())
        try:
            if e['op'] == 'run':
                f = d + '/f.txt'
                L = [bytes(l) * e['times'] if i == 1 else bytes(l) for i, l in enumerate(e['lines'])]
                b = b'\n'.join(L) + (b'\n' if e['nl'] and e['lines'] else b'')
                open(f, 'wb').write(b); args = [f] + e['more']
                if e['ro']: os.chmod(f, 0o444)
            else:
                os.mkdir(d + '/dir'); args = [x.replace('@', d) for x in e['args']]; e = dict(e, msg=list(e['text'].replace('@', d).encode()))
            try: p = subprocess.run([app, *args], capture_output=True, env=vt.ENV, timeout=60, cwd=d, preexec_fn=vt.respect_permissions)
            except subprocess.TimeoutExpired: return dict(e, r=dict(crash='hang'))
            if p.returncode not in (0, 1) or (p.returncode == 1) != (p.stderr != b'') or (p.stderr and not p.stderr.endswith(b'\n')):
                return dict(e, r=dict(crash=f'exit {p.returncode} ' + p.stderr.decode('utf-8', 'replace')[:200]))
            out = p.stdout.replace(L[1], bytes(e['lines'][1])) if e.get('times', 1) > 1 else p.stdout # (a repeated line is shown once)
            return dict(e, r=dict(v=dict(out=list(out), err=list(p.stderr[:-1]))))
        finally: shutil.rmtree(d)
    def rec(inputs):
        with ThreadPoolExecutor(vt.NPROC) as ex: return [dict(init=0, steps=list(ex.map(one, b))) for b in inputs]
    return rec
def run(c):
    app = os.path.join(vt.build('kanjiFormat'), 'kanjiFormat'); rng = c.rng
    R = c.model('MCFormat', cfg='MCFormatT' if c.thorough else None, timeout=700)
    H = vt.prints(R, 'HIST ')
    if c.thorough: H = rng.sample(H, 12000)
    c.cov['model_histories_replayed'] = len(H)
    def item(lines, nl, ro=False): return dict(op='run', lines=lines, nl=nl or (bool(lines) and not lines[-1]), ro=ro, times=1, more=['x'] if rng.random() < .05 else [])
    runs = [item(h, rng.random() < .8) for h in H]
    K = list('漢字読人々〇') + ['㐀', '龯', '鿿', '豈', '𠀋', '𪜀', '⺀', '⻿', '丽', '𰀀', '\ufe00', '\ufe0f']
    N = list('かなカナーゝヾ・ンぁ') + ['ㇰ', 'ㇿ', '゛', '\u3099', 'ヿ', '゠', 'ゟ']
    # just outside the ranges
    O = list('aZ 1（）、。　Ａｱ\t') + ['\u3040', '\u30ff', '\u3100', '\u31ef', '\u3200', '\u33ff', '\u4dc0', '\ua000', '\uf8ff', '\ufb00', '\ufe10', '\u2e7f', '\u2f00', '\r', '\U0002a6e0', '\U000e0100', 'é', '\x00']
    def line():
        x = rng.random()
        n = rng.choice([1, 1, 2, 3, 6])
        t = [rng.choice(rng.choice([K, N, O])) for _ in range(n)]
        if x < .35: t = [rng.choice(N) for _ in range(n)]
        elif x < .7: t = t[:-1] + [rng.choice(K)]
        elif x < .75: t = []
        elif x < .8: t = [rng.choice(N)] * n + [rng.choice(K + O)] + [rng.choice(N)]
        b = ''.join(t).replace('\n', '').encode()
        if rng.random() < .05: b += rng.choice([b'\xe6\xbc', b'\xff', b'\x80', b'\xe3'])
        if rng.random() < .03: b = rng.choice([b'\xe6\xbc', b'\xff']) + b
        return list(b)
    for x in K + N + O:
        if x != '\n': runs += [item([list(('a' + x).encode()), list('か'.encode()), list(b'z')], True), item([list('字'.encode()), list(x.encode()), list('か'.encode())], True)]
    for _ in range(c.n(1200, 20000)): runs.append(item([line() for _ in range(rng.randint(0, 9))], rng.random() < .7, rng.random() < .1))
    for n in (60, 250): runs.append(item([list(('字' * n).encode()), list(('か' * n).encode()), list(('漢' + 'a' * n + '字').encode())], True))
    for x in 'か字aー': runs.append(dict(item([list('字'.encode()), list(x.encode()), list(b'z')], True), times=60000))
    for a, m in [([], 'specify a file to format'), (['@/none'], 'file not found: @/none'), (['@/dir'], 'file not found: @/dir'), (['@'], 'file not found: @'), (['/dev/null'], 'file not found: /dev/null'), ([''], 'file not found: ')]:
        runs.append(dict(op='bad', args=a, text=m, msg=[]))
    rng.shuffle(runs)
    c.check('TraceFormat', record_with(app), batch(runs, 40), label='files')
