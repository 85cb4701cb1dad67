"""Q03: group quizzes. Quiz.tla (PStart, GCodes, GNext, FitCount) is the state of a group quiz or review (answers given, answer being changed, meanings
shown) and what each answer does to it; the whole text of a session follows from it. MCQuiz explores every history of answers for groups of two to four
members and their reviews. Every state and every answer possible there is replayed in the real quiz over groups with equal readings (unusable answers
mixed in); longer random histories run on meaning and pattern groups of 2 to 58 members, all kinds of kanji, parts, orders, starts, with members and
readings shown in order or at random (they must be permutations). Output, score, error and unread input are compared."""
from qz import *
import j02
from q02 import mixed
def ctx_for(rng, total, n):
    D = j02.sequence(rng, 12)
    rows = D['jouyou']
    for i, r in enumerate(rows): r['Reading'] = 'アイアウ'[i % 4]; r['Meaning'] = ['one', 'one', 'two', 'one'][i % 4]
    G.finish(D, ['：'])
    mem = [r['Name'] for r in rows[:n]]
    g = lambda i, name: dict(num=str(i + 1), name=name, first=name[0], members=','.join(mem))
    p = [dict(num='1', name='：ア', first='：', members=','.join(mem))]
    return [dict(op='data', D=D), dict(op='lists', meaning=[g(i, '水') for i in range(total)], pattern=p, words=words(rng, [r['Name'] for r in rows]))]
def large(rng):
    """groups of more than 26 kanji, answered to the end"""
    D = j02.sequence(rng, 75); rows = D['jouyou']
    for r in rows: r['Reading'] = rng.choice('アアイウ'); r['Meaning'] = rng.choice(['one', 'one', 'two'])
    G.finish(D, ['：'])
    N = [r['Name'] for r in rows]
    g = lambda i, name: dict(num=str(i + 1), name=name + chr(0xff11 + i), first=name[0], members=','.join(rng.sample(N, min(len(N), rng.choice([27, 30, 45, 52])))))
    h = [dict(op='data', D=D), dict(op='lists', meaning=[g(i, '水') for i in range(3)], pattern=[g(i, '：ア') for i in range(2)], words=words(rng, N))]
    for _ in range(6):
        k = []
        for _ in range(3):
            q = list(AZ)
            for _ in range(rng.choice([0, 1, 5])): i, j = rng.randrange(52), rng.randrange(52); q[i], q[j] = q[j], q[i]
            if rng.random() < .4: q.insert(rng.randint(27, 50), '*'); i = q.index('*'); q[i + 1:i + 1] = [rng.choice(q[20:i]), rng.choice('XYZ')]
            k += q
        m = rng.choice('mp')
        h.append(run_event([f'-t{rng.choice("112")}', f'-{m}4'] + ['-s'] * (rng.random() < .4), ([''] if m == 'p' else []) + k))
    return h
def replay(rng, H):
    for h in H:
        for k in h['codes'] + ([44] if 44 not in h['codes'] else []):
            keys = [chr(x) for x in h['keys'] + [k]]
            yield run_event(['-r' if h['review'] else '-t'], ['b'] + mixed(rng, keys) + rng.choice([[], ['/'], ['.']]), [start('m', rng.choice('1234'), h['first'], h['show'])])
AZ = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
def keys(rng, n):
    """answers in the spirit of a user: mostly letters in order, with edits"""
    out = []
    x = rng.random(); size = rng.choice([2, 3, 3, 4, 6, 26, 27, 52])
    while len(out) < n:
        y = rng.random()
        if y < .5: # a whole group: in order or shuffled
            q = list(AZ[:size])
            if rng.random() < (.3 if x < .5 else .8): i, j = rng.randrange(size), rng.randrange(size); q[i], q[j] = q[j], q[i]
            if rng.random() < .2: q = rng.sample(q, size)
            for l in q:
                if rng.random() < .06: out.append(rng.choice(["'", '-', 'x', '', 'Z']))
                if rng.random() < .08: out += ['*', rng.choice(q[:4] + ['']), rng.choice(q + [''])]
                out.append(l)
        elif y < .7: out.append(rng.choice(AZ[:4]))
        elif y < .85: out.append(rng.choice("*'-.,"))
        elif y < .97: out.append(rng.choice(['.', '-', ',', ',', '.']))
        else: out.append(rng.choice(['/', 'ab', '?', '1', ' ', 'é']))
    return out[:n]
def run(c):
    exe = h2(); rng = c.rng
    H = [h for h in vt.prints(c.model('MCQuiz', cfg='MCQuizT' if c.thorough else None, timeout=800), 'HIST ') if h['kind'] == 'group']
    if len(H) > 6000: H = rng.sample(H, 6000)
    c.cov['model_histories_replayed'] = len(H)
    total = 3 if c.thorough else 2
    ins = []
    for n in sorted({h['n'] for h in H}):
        ctx = ctx_for(rng, total, n)
        ins += [ctx + b for b in chunks(list(replay(rng, [h for h in H if h['n'] == n])), 150)]
    c.check('TraceQuiz', recorder_qz(exe), ins, label='histories of the model')
    ins = []
    for i in range(c.n(36, 700)):
        ctx, names = context(rng, 'big' if i % 3 == 0 else 'small')
        h = []
        for _ in range(rng.randint(6, 12)):
            k = rng.choice('mpp'); q = rng.choice('12344')
            order = rng.choice(['', '', '0', '0', '1', '1', '1', '2', '-1', '-1', '-2', '9'])
            m = rng.choice('rttt'); n = rng.choice([3, 10, 30, 60, 110])
            part = [] if k == 'm' else [rng.choice(['', '1', '2', '3', '4', '5', '6', '7'] + ['/'] * (rng.random() < .1))]
            show = rng.random() < .4
            if rng.random() < .5: h.append(run_event([f'-{m}{order}', f'-{k}{q}'] + ['-s'] * show, ([] if order else [rng.choice(['b', 'e', 'r', ''])]) + part + keys(rng, n)))
            else:
                first = int(order) if order in ('1', '2', '9') else 0
                h.append(run_event([f'-{m}'], [rng.choice('ber') if first == 0 else 'b'] + part + keys(rng, n), [start(k, q, first, show, rng.random() < .5)]))
        ins.append(ctx + h)
    c.check('TraceQuiz', recorder_qz(exe), ins, label='random histories')
    c.check('TraceQuiz', recorder_qz(exe), [large(rng) for _ in range(c.n(4, 60))], label='large groups')
