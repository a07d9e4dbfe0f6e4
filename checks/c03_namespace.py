"""C03: the directory namespace behaves like a tree of named entries.

Every sequence of namespace operations (valid and invalid targets alike) is run
on the container and on a plain path->node map; after every operation the whole
tree (kinds, attributes, names, data, paths, walk, lookups) is compared, and
after close again through the independent parser and a read-only reopen."""
from lib.mc import Space, words, Violation
from lib.cfbrig import Rig, split

LEVEL = 'model_checking'
ASSUMPTIONS = ['names legal in the format (no / in a component); entries are addressed by absolute path',
               'names that differ only by letter case count as colliding, as the format orders them as equal']

P = ['/a', '/b', '/a/a', '/a/b', '/b/a']
TOO_LONG = 'n' * 32
MAXLEN = 'm' * 31


def alphabet():
    ops = []
    for p in P:
        ops += [['md', p], ['touch', p], ['rm', p], ['rmt', p]]
    for s in P:
        for d in P:
            ops.append(['mv', s, d])
    ops += [['mv', '/a', '/b/'], ['mv', '/a/b', '/'], ['mv', '/b', '/a/'], ['mv', '/a', '/a/a/b'],
            ['mv', '/', '/b'], ['mv', '/b', '/'], ['rm', '/'], ['rmt', '/'],
            ['md', '/a/'], ['md', '/A'], ['mv', '/a', '/A'], ['mv', '/b', '/A'],
            ['md', '/' + TOO_LONG], ['mv', '/a', '/' + TOO_LONG], ['mv', '/a', '/b/' + MAXLEN],
            ['mds', '/a/b/c'], ['mds', '/b'], ['cls', '/a', 1], ['cls', '/b', 2], ['meta', '/a/b', 'flags', 0xfffffffe],
            ['meta', '/a', 'create_time', 0x0123456789abcdef], ['meta', '/b', 'modify_time', 0xfedcba9876543210],
            ['o', '/a', 'r'], ['o', '/a/b', 'r'], ['o', '/b/a', 'w'], ['R']]
    return ops


STARTS = {
    'empty': [],
    'deep': [['mds', '/a/a/x'], ['o', '/a/a/s', 'w'], ['w', '/a/a/s', 100], ['o', '/a/b', 'w'], ['w', '/a/b', 5000], ['md', '/b'], ['cls', '/a', 1]],
    'root-named': [['md', '/a'], ['md', '/a/Root Entry'], ['o', '/a/Root Entry/b', 'w'], ['w', '/a/Root Entry/b', 9], ['o', '/b', 'w'], ['w', '/b', 70]],
    'bushy': [['md', '/a']] + [['touch', '/a/%s' % n] for n in ('k', 'Kk', 'z', '_z', 'Z_', 'aa', 'AAA', 'b')] + [['touch', '/%s' % n] for n in ('k', '_', 'zz', 'Q0', 'q')],
}


def run(case, tally):
    start, pre_reopen, probe, hist = case
    r = Rig(512, probe=probe, tally=tally)
    pm, r.probe_mode = r.probe_mode, 'end'
    for op in STARTS[start]:
        r.step(op)
    if pre_reopen:
        r.reopen()
    r.probe_mode = pm
    for op in hist:
        r.step(op)
    tally.state(r.m.canon())
    tally.outcome('%d entries' % (len(r.m.t) - 1))
    r.finish(state=False)


def spaces(tier):
    T = tier == 'thorough'
    ops = alphabet()

    def cases(starts, depth, probes):
        def it():
            for k in range(1, depth + 1):
                for st in starts:
                    for ro in (False, True) if st != 'empty' else (False,):
                        for pr in probes:
                            for w in words(ops, k):
                                if w[-1][0] == 'R':
                                    continue
                                yield [st, ro, pr, w]
        return it
    small = [op for op in ops if op[0] in ('md', 'rm', 'rmt', 'R', 'touch') and op[1:] != ['/'] and op[-1] in ('/a', '/b', '/a/b') or op[0] == 'R']
    small = [o for o in small if o[0] != 'touch' or o[1] in ('/a/b', '/b')] + [['mv', '/a', '/b'], ['mv', '/a/b', '/b'], ['mv', '/b', '/a/b'], ['mv', '/a', '/b/a']]

    def deep():
        for w in words(small, 5 if T else 4):
            if w[-1][0] != 'R':
                yield ['empty', False, 'all', w]
    return [
        Space('pairs', cases(('empty', 'deep', 'root-named', 'bushy'), 3 if T else 2, ('all', 'end') if not T else ('all',)), run,
              'every pair (thorough: triple) of %d namespace operations, from four starting trees, fresh or reopened' % len(ops)),
        Space('deep', deep, run, 'every history over %d core operations' % len(small)),
    ]
