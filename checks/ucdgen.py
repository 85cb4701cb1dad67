"""rows of Unicode data for the checks of the kanji data classes"""
import os
def repo(): return os.environ.get('KT_REPO', '/repo')
COLS = ['Code', 'Name', 'Block', 'Version', 'Radical', 'Strokes', 'VStrokes', 'Pinyin', 'MorohashiId', 'NelsonIds', 'Sources', 'JSource', 'Joyo', 'Jinmei',
        'LinkCodes', 'LinkNames', 'LinkType', 'Meaning', 'On', 'Kun', 'Japanese']
LT = ["Compatibility*", "Definition*", "Jinmei*", "Semantic*", "Simplified*", "Traditional*", "Compatibility", "Definition", "Jinmei", "Simplified", "Traditional"]
ON = ['ICHI', 'ITSU', 'SOU', 'KYUU', 'JUTSU', 'NYAKU', 'KAN', 'HYAKU', 'SHI', 'KATSU', 'GATCHI', 'CHUU', "SHIN'I", 'PPO', 'ON', 'EI', 'DZU', 'A']
KUN = ['HITOTSU', 'BOUZU', 'KOKONOTSU', 'HAJIME', 'KAWA', 'ONNA', "HON'YA", 'NAGAI', 'MUKU', 'AWAREMU', 'TSUDZUKU', 'KITTE', 'I', 'WO']
def pieces(t, d):
    q = t.split(d)
    return q[:-1] if q[-1] == '' else q
def with_cp(row):
    """adds the code points the specification needs"""
    names = pieces(row['LinkNames'], ','); codes = pieces(row['LinkCodes'], ',')
    row['cp'] = dict(name=[ord(c) for c in row['Name']], code=[ord(c) for c in row['Code']], links=[[ord(c) for c in x] for x in names], codes=[[ord(c) for c in x] for x in codes])
    return row
def text(rows, cols=COLS):
    return '\n'.join(['\t'.join(cols)] + ['\t'.join(r[c] for c in cols) for r in rows]) + '\n'
def hexc(name): return '%04X' % ord(name[0]) if name else ''
def plain(rng, name, joyo=False, jinmei=False, links=(), linktype=None):
    """a row that is acceptable by itself"""
    n = lambda hi: str(rng.randint(1, hi))
    s = rng.choice([2, 5, 9, 14, 33, 64, rng.randint(2, 64)])
    v = ''
    if rng.random() < .2:
        v = rng.choice([3, 4, 12, 33]); v = '' if v == s else str(v)
    if not v and rng.random() < .1: s = 1
    q = rng.sample('GHJKTV', rng.randint(0, 6))
    ks = lambda l: ' '.join(rng.choice(l) for _ in range(rng.choice([0, 1, 1, 2, 3])))
    r = dict(Code=hexc(name), Name=name, Block=rng.choice(['CJK', 'CJK_Ext_A', 'B x']), Version=rng.choice(['1.1', '3.2', '15.0']),
             Radical=rng.choice([n(214), '1', '214', '009']), Strokes=str(s), VStrokes=v, Pinyin=rng.choice(['', 'yī', 'sēng', 'a']),
             MorohashiId=rng.choice(['', n(49999), n(50000) + 'P', n(50000) + "''", 'H' + n(800), '0', '65535']), NelsonIds=rng.choice(['', n(5446), n(5446) + ',' + n(5446), '1,2,3']),
             Sources=''.join(q), JSource=rng.choice(['', 'J0-414E', 'JA']), Joyo='Y' if joyo else '', Jinmei='Y' if jinmei else '',
             LinkCodes=','.join(hexc(x) for x in links), LinkNames=','.join(links), LinkType=(linktype or rng.choice(LT)) if links else '',
             Meaning=rng.choice(['one', 'sub-', 'priest, monk; san']) if joyo or rng.random() < .7 else '', On=ks(ON), Kun=ks(KUN), Japanese='')
    if not (r['On'] or r['Kun'] or r['MorohashiId'] or r['JSource']): r['On'] = rng.choice(ON)
    return r
