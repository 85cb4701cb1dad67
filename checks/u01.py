"""U01: decoding. Model: MCUtf8 (decoder as a machine over all boundary byte strings). Binding: TraceUtf8 judges
every decoding form of the real code on all boundary byte strings up to length 3/4 and on random ones."""
import vt
from common import *
from gen_bytes import byte_strings

def run(c):
    exe = h1()
    c.model('MCUtf8', cfg='MCUtf8T' if c.thorough else 'MCUtf8')
    items = []
    for b in byte_strings(c.rng, c.n(3, 4), c.n(30000, 300000)):
        items.append((b, 0))
        if len(b) > 1 and c.rng.random() < .3: items.append((b, c.rng.randint(1, 4)))
    rec = recorder(exe, lambda x: ['dec', hx(x[0]), x[1]], lambda x: dict(op='dec', b=list(x[0]), n=x[1]))
    c.check('TraceUtf8', rec, batch(items), label='decode')
