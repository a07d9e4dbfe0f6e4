"""C01: a stored stream behaves exactly like a growable byte array.

Every word of write / seek / read / truncate / open operations up to a depth runs
on one or two streams of a real container next to plain byte arrays, with sizes on
both sides of every sector, mini-sector and small-stream boundary, on a fresh
container and on one whose free sectors hold old bytes; after each operation the
result, position and size are compared, and after close the bytes, by an
independent reader and by a reopened container.
"""
from lib.mc import Space, words, Violation
from lib.cfbrig import Rig, dirty

LEVEL = 'model_checking'
ASSUMPTIONS = ['one live handle per stream at a time (the library keeps per-handle sector lists)',
               'sizes and offsets come from the boundary sets listed in DESIGN.md']

A = '/a'
B = '/b'


def wide(ss, thorough=False):
    ops = [['w', A, n] for n in (1, 64, 4000, 2 * ss + 1)]
    ops += [['s', A, n, 0] for n in (0, 63, 4095, 4096)]
    ops += [['s', A, 1, 2], ['s', A, 4200, 2], ['s', A, -1, 2], ['s', A, -3, 1]]
    ops += [['t', A, n] for n in (None, 0, 1, 65, 4095, 4096, 5000)]
    ops += [['r', A, 65], ['r', A, -1], ['o', A, 'w'], ['o', A, 'rw'], ['R']]
    return ops


def core(ss):
    return [['w', A, 70], ['w', A, 4100], ['s', A, 0, 0], ['s', A, 100, 2], ['t', A, None], ['t', A, 66],
            ['t', A, 4096], ['t', A, 0], ['R']]


def two(ss):
    ops = []
    for p in (A, B):
        ops += [['w', p, 65], ['w', p, 4096], ['t', p, 64], ['t', p, 0], ['s', p, 30, 0]]
    return ops + [['R'], ['mv', '/a', '/c']]


def run(case, tally):
    ss, start, probe, hist = case
    r = Rig(ss, probe=probe, tally=tally)
    if start == 'dirty':
        dirty(r)
    r.step(['o', A, 'rw'])
    if any(len(op) > 1 and op[1] == B for op in hist):
        r.step(['o', B, 'rw'])
    for op in hist:
        r.step(op)
        if op[0] == 'R' or op[0] == 'mv':
            for p in (A, B):
                if p in r.m.t and p not in r.m.pos:
                    r.step(['o', p, 'rw'])
    n = r.m.t.get(A)
    tally.outcome('size %d' % len(n.data) if n else 'moved')
    r.finish()


def nontrivial(w):
    return True


def spaces(tier):
    T = tier == 'thorough'
    out = []

    def mk(name, alpha, depth, starts, probes, rule):
        def cases():
            for k in range(1, depth + 1):
                for ss in (512, 4096):
                    for st in starts:
                        for pr in probes:
                            for w in words(alpha(ss), k):
                                if w[-1][0] == 'R':
                                    continue   # finish() always closes and reopens
                                yield [ss, st, pr, w]
        out.append(Space(name, cases, run, rule))
    mk('one-stream-wide', wide, 4 if T else 2, ('fresh', 'dirty'), ('all',), 'every history of up to depth wide operations on one stream')
    mk('one-stream-core', core, 6 if T else 4, ('fresh', 'dirty'), ('all', 'end'), 'every history over the boundary-crossing core alphabet')
    mk('two-streams', two, 5 if T else 3, ('fresh', 'dirty'), ('all',), 'every interleaving of operations on two streams')
    return out
