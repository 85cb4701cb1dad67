"""Q02: list quizzes. Quiz.tla (PStart, LCodes, LNext) is the state of a list quiz or review and what each answer does to it; the whole text of a session
follows from it, with the observed choices and random orders checked to be possible ones (requested number, different readings, the right one once,
every question once). MCQuiz explores every history of answers for lists and reviews from every start. Every state and every answer possible there
is replayed in the real quiz (with unusable answers mixed in); longer random histories run on frequency, grade, kyu and level lists in all orders,
starts, choice counts and styles, several in one process. Output, score, error and unread input are compared."""
from qz import *
import j02
def ctx_for(rng, total, n):
    """a context with a kyu list of 'total' names with n readings (a, b, a, c)"""
    D = j02.sequence(rng, 12)
    rows = D['jouyou']
    for i, r in enumerate(rows): r['Reading'] = 'アイウエオ'[i % n]; r['Meaning'] = ['one', 'two', ''][i % 3]
    D['kyus'][0] = [r['Name'] for r in rows[:total]]
    G.finish(D, ['：'])
    return [dict(op='data', D=D), dict(op='lists', meaning=[], pattern=[], words=words(rng, [r['Name'] for r in rows]))]
JUNK = ['x', '', ' ', '11', '0', 'é', '--', '?', '}', '9', '\t', '/.']
def mixed(rng, keys):
    out = []
    for k in keys:
        while rng.random() < .12: out.append(rng.choice(JUNK))
        out.append(k)
    return out
def replay(rng, H):
    """runs for the model's histories: each continued with each answer possible there"""
    for h in H:
        for k in h['codes'] + ([44] if 44 not in h['codes'] else []):
            keys = [chr(x) for x in h['keys'] + [k]]
            yield run_event(['-r' if h['review'] else '-t'], ['b'] + ([] if h['review'] else [str(h['n']), rng.choice('kr')]) + mixed(rng, keys) + rng.choice([[], ['/'], ['.']]),
                            [start('k', 'a', h['first'], h['show'])])
def keys(rng, n):
    x = rng.random()
    pool = list('1234') if x < .4 else list('1111234-.') if x < .7 else list('..,,-1/') if x < .85 else list('123456789-.,/x') + ['', '12']
    return [rng.choice(pool) if rng.random() > .01 else '/' for _ in range(n)]
def run(c):
    exe = h2(); rng = c.rng
    H = [h for h in vt.prints(c.model('MCQuiz', cfg='MCQuizT' if c.thorough else None, timeout=800), 'HIST ') if h['kind'] == 'list']
    c.cov['model_histories_replayed'] = len(H)
    total = 3 if c.thorough else 2
    ins = []
    for n in sorted({h['n'] for h in H}):
        ctx = ctx_for(rng, max(total, n), n)
        ins += [ctx + b for b in chunks(list(replay(rng, [h for h in H if h['n'] == n])), 150)]
    c.check('TraceQuiz', recorder_qz(exe), ins, label='histories of the model')
    ins = []
    for i in range(c.n(36, 700)):
        ctx, names = context(rng, 'big' if i % 3 == 0 else 'small')
        h = []
        for _ in range(rng.randint(8, 14)):
            k = rng.choice('ffgggkkll'); q = rng.choice({'f': '0123', 'g': '123456s', 'k': '12ab9', 'l': '12345'}[k])
            order = rng.choice(['', '', '0', '0', '0', '1', '1', '1', '-1', '-1', '2', '5', '-2', '30'])
            m = rng.choice('rttt')
            pre = ([] if order else [rng.choice(['b', 'e', 'r', ''])]) + ([] if m == 'r' else [rng.choice(['2', '3', '4', '4', '5', '9', '']), rng.choice(['k', 'r', ''])])
            show = rng.random() < .4
            if rng.random() < .5: h.append(run_event([f'-{m}{order}', f'-{k}{q}'] + ['-s'] * show, pre + keys(rng, rng.choice([3, 10, 30, 60]))))
            else:
                first = int(order) if order in ('1', '2', '5', '30') else 0
                lines = (['b'] if first else [rng.choice('ber')]) + pre[0 if order else 1:] + keys(rng, rng.choice([3, 10, 30, 60]))
                h.append(run_event([f'-{m}'], lines, [start(k, q, first, show, rng.random() < .5)]))
        ins.append(ctx + h)
    c.check('TraceQuiz', recorder_qz(exe), ins, label='random histories')
