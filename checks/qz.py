"""sessions of the quiz program: data for them, recording, and the random choices seen in their output"""
import re
from kd import *
import j02
# ---- data
LEVEL_BASE = '一丁七万'
def group_rows(rng, names, meaning, most=8):
    rows, used = [], set()
    big = rng.random() < .25
    for i in range(rng.randint(1, most)):
        free = [n for n in names if n not in used] or names
        size = rng.choice([2, 2, 3, 3, 4, 6] + ([26, 27, 28, 52, 53, 58] if big else []))
        mem = rng.sample(free, min(len(free), size))
        if len(mem) < 2: break
        if not meaning or rng.random() < .3: used.update(mem)
        no = ''.join(chr(0xff10 + int(c)) for c in str(i + 1))
        kana = rng.choice(['ア', 'イ', 'カ', 'キ', 'サ', 'タ', 'ナ', 'ハ', 'マ', 'ヤ', 'ワ', 'カ、サ'])
        if meaning: name = rng.choice(['方向', '水', '色']) + no; first = name[0]
        else:
            x = rng.random()
            if x < .4: first, mem = mem[0], mem[1:]; name = first + '：' + kana + no
            elif x < .75: name = '：' + kana + no; first = '：'
            else: name = rng.choice(['ア', 'カ']) + no; first = name[0]
            if len(mem) < 2 and x >= .4: continue
            if not mem: continue
        rows.append(dict(num=str(rng.randint(1, 1200)), name=name, first=first, members=','.join(mem)))
    if not meaning and rng.random() < .6: # in order of their readings
        order = 'アイウエオカキクケコサシタチナハマヤワ'
        rows.sort(key=lambda w: order.find(w['name'].split('：')[1][0]) if '：' in w['name'] else -1)
    return rows
KANA = list('あかんしゃがー')
def hot(words, n=3):
    """the kanji with the most words"""
    q = {}
    for w in words:
        for k in w['k']: q[k] = q.get(k, 0) + 1
    return sorted(q, key=lambda k: -q[k])[:n]
def words(rng, names, graded={}):
    """compound words in the order they are loaded"""
    out = []; n1 = [n for n in names]
    hot = rng.sample(n1, min(len(n1), 3)) # kanji with many words
    for i, k in enumerate(rng.sample(list(graded), min(len(graded), 2))): hot[i:i + 1] = [k]
    seen = set()
    one = rng.choice(list(graded)) if graded and rng.random() < .6 else None # a kanji with words of its own grade only
    at = {g: i for i, g in enumerate('123456S')}.get(graded.get(one), -1) if one else -1
    for f in range(7):
        for i in range(rng.choice([4, 5, 6]) if f == at else rng.choice([0, 1, 2, 4])):
            k = [one, rng.choice(n1)] if f == at else [rng.choice(hot if rng.random() < .7 else n1) for _ in range(rng.choice([2, 2, 3, 4]))]
            n = list(k)
            if rng.random() < .2: n.insert(rng.randint(1, len(n)), rng.choice(['い', 'り', 'カ']))
            t = ''.join(n); y = ''.join(rng.choice(KANA) for _ in range(rng.choice([1, 2, 3, 5, 9])))
            if t in seen or (at >= 0 and f != at and one in k): continue
            seen.add(t)
            s = f'{t}（{y}）'
            out.append(dict(n=t, y=y, g=f'G{f + 1}' if f < 6 else 'S', k=k, cp=[ord(c) for c in s]))
    return out
def list_fields(e):
    q = []
    for p, rows in (('meaning-groups.txt', e['meaning']), ('pattern-groups.txt', e['pattern'])):
        q += [hx(p), hx('Number\tName\tMembers\n' + ''.join(f"{w['num']}\t{w['name']}\t{w['members']}\n" for w in rows))]
    for i in range(1, 7): q += [hx(f'g{i}.txt'), hx(''.join(f"{w['n']} ({w['y']})\n" for w in e['words'] if w['g'] == f'G{i}'))]
    s = [w for w in e['words'] if w['g'] == 'S']
    q += [hx('other.txt'), hx(''.join('X ... ' + ' '.join(f"{w['n']}({w['y']})" for w in s[i:i + 3]) + '\n' for i in range(0, len(s), 3)))]
    return q
# ---- sessions
def arg(t): return dict(t=t, b=list(t.encode()))
def run_event(args=(), lines=(), starts=()):
    return dict(op='run', args=[arg(t) for t in args], lines=list(lines), starts=list(starts), term=False)
def start(type='', list='', first=0, show=False, rnd=False):
    return dict(type=[ord(c) for c in type], list=[ord(c) for c in list], first=first, show=show, rnd=rnd)
def line(e):
    if e['op'] == 'data': return ['kd.load'] + fields(e['D'])
    if e['op'] == 'lists': return ['qz.lists'] + list_fields(e)
    q = ['qz.run', hx(''.join(l + '\n' for l in e['lines'])), len(e['args'])] + [hx(a['t']) for a in e['args']]
    for w in e['starts']: q += [hx(bytes(w['type'])), hx(bytes(w['list'])), w['first'], int(w['show']), int(w['rnd'])]
    return q
def recs_of(r): return {k['n']: k for k in r['v']['recs']} if 'v' in r else {}
HEAD = re.compile(r'>>>\n>>> Starting (quiz|review) for (\d+) (kanji|Meaning groups|Pattern groups)\n')
QUES = re.compile(r'\n(?:Question )?(\d+)/(\d+):  ')
ENTRY = re.compile(r'^ *\d+:  (\S+?)[.\'"^~%+@#*] .*(?:    |[ \d]\d->)(\S):  (\S*?)(?: : (.*))?$')
def hints(out, recs):
    """the random choices a session shows: for each quiz the order and the choices (or members and readings) of each question"""
    res = []
    m = list(HEAD.finditer(out))
    for i, h in enumerate(m):
        seg = out[h.end() - 1:m[i + 1].start() if i + 1 < len(m) else len(out)]
        total = int(h[2]); quiz = h[1] == 'quiz'
        order = [''] * total; A, B = {}, {}; state = {}
        q = list(QUES.finditer(seg))
        for j, x in enumerate(q):
            body = seg[x.end():q[j + 1].start() if j + 1 < len(q) else len(seg)]
            pos = int(x[1]) - 1
            if not 0 <= pos < total: continue
            if h[3] == 'kanji':
                ch = re.findall(r'^    \d\.  (.*)$', body, re.M) if quiz else []
                if quiz: A.setdefault(pos, ch)
                if body.startswith('Reading:  '):
                    y = body[10:].split('\n')[0]
                    name = next((n for n in ch if recs.get(n, {}).get('reading') == y), None) or next((n for n in ch if y.startswith(recs.get(n, {}).get('reading', '?') + ' : ')), '')
                else: name = re.match(r'[^ \n]*', body)[0]
                order[pos] = name
            else:
                t = re.match(r'(\[.*?\]), ', body)
                if t: order[pos] = t[1]
                if quiz:
                    rows = [ENTRY.match(l) for l in body.split('\n\n')[0].split('\n')[1:]]
                    rows = [r for r in rows if r]
                    shown = '-=hide meanings' in body
                    if pos not in state or shown: state[pos] = [(r[1], r[3], (r[4] or '') if shown else None) for r in rows]
        for pos, rows in state.items():
            A[pos] = [r[0] for r in rows]
            left = list(A[pos]); B[pos] = []
            for _, y, mean in rows:
                n = next((n for n in left if recs.get(n, {}).get('reading') == y and (mean is None or recs[n]['meaning'] == mean)), None)
                if n: left.remove(n)
                B[pos].append(n or '')
        ks = sorted(A)
        # visits in the order in which the questions were first shown (quizzes only move forward)
        res.append(dict(order=order, a=[A[k] for k in ks], b=[B.get(k, []) for k in ks]))
    return res
def recorder_qz(exe):
    def rec(inputs):
        rep = vt.run_sessions(exe, [[line(e) for e in h] for h in inputs])
        out = []
        for h, rs in zip(inputs, rep):
            recs, steps = {}, []
            for e, r in zip(h, rs):
                if e['op'] == 'data':
                    recs = recs_of(r); r = dict(v=r['v']['errs']) if 'v' in r else r
                    steps.append(dict(e, r=r)); continue
                if e['op'] == 'run':
                    x = dict(op='run', args=e['args'], starts=e['starts'], term=e['term'], h=[])
                    x['in'] = [list(l.encode()) for l in e['lines']]
                    if 'v' in r:
                        x['h'] = hints(r['v']['out'], recs)
                        r = dict(v=dict(r['v'], rest=[list(l.encode()) for l in r['v']['rest'].split('\n')[:-1]]))
                    steps.append(dict(x, r=r)); continue
                steps.append(dict(e, r=r))
            out.append(dict(init=0, steps=steps))
        return out
    return rec
def context(rng, kind='small', more=()):
    """events that load a directory, its groups and words; and the kanji in it"""
    if kind == 'small': D = G.small(rng, rng.choice([.4, 1, 1, 1.5]), faults=False)
    else:
        D = j02.sequence(rng, 75)
        # a mixture of kanji with and without level, frequency and meaning
        D['freq'] = D['freq'][:40]
        for r in D['jouyou']: r['Meaning'] = rng.choice(['one', 'two', '', 'm']); r['Reading'] = rng.choice(G.READ + ['ア', 'イ']); r['Grade'] = rng.choice(G.GRADES)
        jou = [r['Name'] for r in D['jouyou']]
        for n in jou:
            if rng.random() < .5: rng.choice(D['levels']).append(n)
        ks = rng.sample([r['Name'] for r in D['ucd']], 40)
        for n in ks: rng.choice(D['kyus']).append(n)
    t = G.types(D)
    cand = sorted({r['Name'] for r in D['ucd']} - set(G.COMPAT) | {n for n in t if len(n) == 2 and n[-1] != '\ufe02'})
    G.finish(D, list(more) + ['：'])
    # names that are really loaded (files may name kanji the directory lacks)
    have = {r['Name'] for r in D['ucd']}
    cand = [n for n in cand if n in have or n in t and len(n) == 2]
    rng.shuffle(cand)
    L = dict(op='lists', meaning=group_rows(rng, cand, True), pattern=group_rows(rng, cand, False), words=words(rng, cand, {r['Name']: r['Grade'] for r in D['jouyou'] if r['Name'] in cand}))
    return [dict(op='data', D=D), L], cand
