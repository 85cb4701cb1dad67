"""U11: choice prompts. MCChoice runs a prompt round by round over every small set of choices, quit option, default, range and
input and checks that the listing names exactly the choices, the answer is offered and every request ends (temporal property);
random histories of requests over one prompt object and one input stream are replayed on the real class, and key by key prompts at a pseudo terminal."""
from common import *
def record_with(exe):
    def rec(inputs):
        sess = []
        for h in inputs:
            L = []
            for e in h:
                o = e['op']; q = lambda f: e[f][0] if e[f] else '-'
                d = lambda: '*' if e['desc'] == 'quit' else hx(e['desc'])
                if o == 'new': L.append(['ch.new', q('quit'), d(), hx(b'\n'.join(bytes(x) for x in e['in']) + (b'\n' if e['in'] and e['nl'] else b''))])
                elif o == 'setquit': L.append(['ch.setquit', q('quit'), d()])
                elif o == 'clear': L.append(['ch.clear'])
                elif o == 'quit': L.append(['ch.quit', e['c']])
                elif o == 'tty': L.append(['ch.tty', hx(bytes(b for k in e['keys'] for b in (k or [10]))), q('quit'), hx(e['msg']), q('def')] + [y for x in e['choices'] for y in (x['c'], hx(x['d']))])
                else: L.append(['ch.get', e['form'], *(e['range'] or ['-', '-']), hx(e['msg']), int(e['useQuit']), q('def')] + [y for x in e['choices'] for y in (x['c'], hx(x['d']))])
            sess.append(L)
        rep = vt.run_sessions(exe, sess, timeout=60)
        return [dict(init=0, steps=[dict(e, r=r) for e, r in zip(h, rs)]) for h, rs in zip(inputs, rep)]
    return rec
def run(c):
    exe = h1(); rng = c.rng
    c.model('MCChoice', cfg='MCChoiceT' if c.thorough else None)
    pools = [list(range(97, 105)), list(range(32, 127)), [47, 45, 46, 48, 49, 50, 51], [126, 125, 32, 33, 65, 97], [31, 32, 126, 127, -1, -128, 0, 65, 66]]
    ins = []
    for _ in range(c.n(3000, 40000)):
        pool = rng.choice(pools[:4] if rng.random() < .85 else pools)
        ch = lambda: rng.choice(pool)
        desc = lambda: rng.choice(['', '', '', '', 'd', 'quit', 'a=b', '漢字 x'])
        lines = []
        for _ in range(rng.randint(0, 9)):
            lines.append(rng.choice([[], [ch() % 256], [ch() % 256], [ch() % 256], [ch() % 256, ch() % 256], [0xe3, 0x81, 0x8b], [32], [200], [13]]))
        lines = [[b for b in l if b != 10] for l in lines]
        nl = rng.random() < .7 or not lines or not lines[-1]
        h = [{'op': 'new', 'quit': rng.choice([[], [], [47], [ch()]]), 'desc': rng.choice(['quit', 'quit', '', 'end']), 'in': lines, 'nl': nl}]
        for _ in range(rng.randint(1, 7)):
            o = rng.choice(['get'] * 8 + ['setquit', 'clear', 'quit', 'quit'])
            e = dict(op=o)
            if o == 'setquit': e.update(quit=[ch()], desc=rng.choice(['quit', '', 'end']))
            if o == 'quit': e.update(c=rng.choice([47, ch()]))
            if o == 'get':
                cs = sorted(set(ch() for _ in range(rng.choice([0, 1, 2, 3, 5, 10]))))
                a, b = ch(), ch()
                if a > b and rng.random() < .8: a, b = b, a
                if pool is not pools[-1] and rng.random() < .8: cs = [x for x in cs if not a <= x <= b] if (rg := rng.random() < .4) else cs
                else: rg = rng.random() < .3
                d = rng.choice(cs + [ch()]) if rng.random() < .5 else None
                if d is not None and not 32 <= d <= 126: d = None
                e.update(form=rng.choice(['short', 'full']), range=[a, b] if rg else [], msg=rng.choice(['', 'msg', 'Quiz type']), useQuit=rng.random() < .7,
                         choices=[dict(c=x, d=desc()) for x in cs], defs=chr(d) if d is not None else '')
                e['def'] = [d] if d is not None else []
            h.append(e)
        ins.append(h)
    c.check('TraceChoice', record_with(exe), ins, label='prompts')
    tty = []
    for _ in range(c.n(200, 2000)):
        pool = rng.choice(pools[:3])
        ch = lambda: rng.choice(pool)
        cs = sorted(set(ch() for _ in range(rng.choice([1, 2, 3, 5]))))
        d = rng.choice(cs) if rng.random() < .5 else None
        e = dict(op='tty', keys=[rng.choice([[], [ch()], [ch()], [rng.choice(cs)]]) for _ in range(rng.randint(0, 5))], quit=rng.choice([[], [47], [ch()]]), msg=rng.choice(['', 'msg']),
                 useQuit=True, range=[], choices=[dict(c=x, d=rng.choice(['', '', 'd'])) for x in cs], defs=chr(d) if d is not None else '')
        e['def'] = [d] if d is not None else []
        tty.append([e])
    c.check('TraceChoice', record_with(exe), tty, label='prompts at a terminal')
