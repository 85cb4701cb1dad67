"""K03: Rōmaji and the other script to kana. Converter.tla reads the romaji that begins at each point of a word; MCConverter checks
script and case independence and the round trip. Recorded conversions are checked against it: every one to three letter string, every
spelling of every kana in random case around n, doubled letters, macrons and delimiters, random words of letters, and mixed texts."""
from kv import *
def run(c):
    exe = h1(); rng = c.rng
    c.model('MCConverter', cfg='MCConverter_rom' + ('T' if c.thorough else ''), timeout=700)
    c.model('MCConverter', cfg='MCConverterT' if c.thorough else None, timeout=700)
    V = []
    KT = ['Hiragana', 'Katakana']
    kt = lambda: rng.choice(KT)
    fl = lambda: rng.choice([0, 0, 0, 4, 8, 12, rng.randrange(16)])
    case = lambda t: ''.join(x.upper() if rng.random() < .2 else x for x in t)
    L = string.ascii_lowercase
    for a in L:
        V.append(('Romaji', case(a), kt(), fl()))
        for b in L + 'āō ':
            for t in KT: V.append(('Romaji', case(a + b), t, fl()))
            for d in L + 'ā':
                if c.thorough or d in 'aiueoāny' or rng.random() < .12: V.append((rng.choice(['Romaji', '']), case(a + b + d), kt(), fl()))
    spell = [s for t in TAB for s in [t[0]] + t[3]]
    for s in spell:
        for t in KT:
            for f in (0, 4): V.append(('Romaji', s, t, f))
        mac = s[:-1] + 'āīūēō'['aiueo'.index(s[-1])] if s != 'n' else 'n'
        for p in ('', 'n', 'nn', 'k', s[0], 't', "n'", 'N-', 'c', 'h', 'x', 'sh'):
            for w in (s, mac, s + 'n', s + s): V.append(('Romaji', case(p + w), kt(), fl()))
    small = 'aikntchysāー' + " '-" + 'か'
    for n in (4,) if not c.thorough else (4, 5):
        for q in itertools.product(small, repeat=n):
            if rng.random() < (.12 if n == 4 and not c.thorough else 1 if n == 4 else .15): V.append((rng.choice(['Romaji', 'Romaji', '']), list(q), kt(), fl()))
    for _ in range(c.n(5000, 80000)):
        t = []
        for _ in range(rng.randint(1, 7)):
            x = rng.random()
            if x < .45:
                s = rng.choice(spell)
                if rng.random() < .2 and s != 'n': s = s[:-1] + 'āīūēō'['aiueo'.index(s[-1])]
                if rng.random() < .15: s = s[0] + s
                t += case(s)
            elif x < .55: t += rng.choice(['n', 'N', "n'", 'nn', 'tch', '-', "'"])
            elif x < .65: t += rng.choice(NARROW)
            elif x < .72: t += rng.choice(WIDE)
            elif x < .8: t += [rng.choice(HIRA + KATA + MARKS)]
            elif x < .85: t += [rng.choice(OTHER)]
            elif x < .9: t += rng.choice(['\t', '\n'])
            else: t += ''.join(rng.choice(L) for _ in range(rng.randint(1, 5)))
        V.append((rng.choice(['Romaji', 'Romaji', '', *T]), t, rng.choice(KT + KT + ['Romaji']), fl()))
    for S, K, O in (('Hiragana', HIRA, 'Katakana'), ('Katakana', KATA, 'Hiragana')):
        for x in [chr(y) for y in range(0x3040, 0x3100) if y not in (0x3099, 0x309a)] + OTHER + list(WIDE): V.append((S, [x], O, fl())); V.append(('', [x], O, fl())); V.append((S, [x], S, fl()))
        for _ in range(c.n(1500, 20000)):
            V.append((rng.choice([S, '']), [rng.choice(rng.choice([K, K, K, MARKS, HIRA + KATA, list(WIDE), OTHER])) for _ in range(rng.randint(2, 10))], O, fl()))
    rng.shuffle(V)
    c.check('TraceConverter', record_with(exe), sessions(rng, V), label='to kana')
