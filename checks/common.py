"""input generators and recorders shared by the checks"""
import itertools, os, random
import vt
from vt import hx

REP = [0x00, 0x41, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xf8, 0xff]

def h1():
    return os.path.join(vt.build('h1'), 'h1')

def h2():
    return os.path.join(vt.build('h2'), 'h2')

def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]

def batch(items, n=250):
    """stateless operations -> one input per session"""
    return chunks(items, n)

def recorder(exe, line, event, init=0):
    """record(inputs) for stateless batches: input = list of items; line(item) -> harness fields;
    event(item) -> event fields"""
    def rec(inputs):
        rep = vt.run_sessions(exe, [[line(x) for x in b] for b in inputs])
        return [dict(init=init, steps=[dict(event(x), r=r) for x, r in zip(b, rs)]) for b, rs in zip(inputs, rep)]
    return rec
