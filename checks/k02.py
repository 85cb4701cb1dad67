"""K02: kana to Rōmaji. Converter.tla reads morae and emits their spelling; MCConverter proves over every small text that the result
comes back as the same kana. Recorded conversions of the real class are checked against it: every kana character and pair of
kana in both scripts, triples around small tsu, n, small kana, prolong and iteration marks, and random mixed texts, under all flag
sets, within sessions that set target and flags in every way (so state left over from earlier conversions would show)."""
from kv import *
def run(c):
    exe = h1(); rng = c.rng
    c.model('MCConverter', cfg='MCConverterT' if c.thorough else None, timeout=700)
    V = []
    fl = lambda: rng.choice([0, 1, 2, 3, 0, 1, 2, 3, rng.randrange(16)])
    for S, K in (('Hiragana', HIRA), ('Katakana', KATA)):
        A = K + MARKS
        blk = [chr(x) for x in range(0x3040, 0x3100) if x not in (0x3099, 0x309a)] + OTHER + list(WIDE) + list(NARROW) + ["'", '-', 'a', 'Z']
        for x in blk:
            for f in (0, 1, 2, 3, 12): V.append((S, [x], 'Romaji', f)); V.append(('', [x], 'Romaji', f))
        for a in A:
            for b in A:
                for f in ((0, 1, 2) if c.thorough else (fl(),)): V.append((S, [a, b], 'Romaji', f))
        H = (lambda h: [KATA[HIRA.index(x)] if S == 'Katakana' and x in HIRA else x for x in h])
        core = H('んっゃぁゎをゐつじかちいやうふゔ') + MARKS + ['。', 'a', '字']
        for q in itertools.product(core, repeat=3):
            if c.thorough or rng.random() < .45: V.append((S, list(q), 'Romaji', fl()))
        for _ in range(c.n(2500, 60000)):
            n = rng.randint(3, 12)
            t = [rng.choice(rng.choice([A, A, A, core, core, [rng.choice(list(WIDE))], OTHER, HIRA + KATA, list(NARROW + "'-abkn")])) for _ in range(n)]
            V.append((rng.choice([S, S, '']), t, 'Romaji', fl()))
    if c.thorough:
        for q in itertools.product(HIRA[::2] + MARKS[:3], repeat=3): V.append(('Hiragana', list(q), 'Romaji', fl()))
    rng.shuffle(V)
    c.check('TraceConverter', record_with(exe), sessions(rng, V), label='kana to Rōmaji')
