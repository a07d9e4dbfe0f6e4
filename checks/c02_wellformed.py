"""C02: every closed container is structurally well formed.

Every history over a mixed directory/stream alphabet is run on the real
container next to the model; each close (in the middle or at the end) is parsed
by the independent validator lib/cfbref.py."""
from lib.mc import Space, words, Violation
from lib.cfbrig import Rig, dirty, split

LEVEL = 'model_checking'
ASSUMPTIONS = ['[MS-CFB] rules as encoded in lib/cfbref.py (sector ownership, table counts, chain lengths, directory reachability, sibling order, file tail)',
               'sector sizes 512 and 4096; one live handle per stream']


def mixed(ss):
    # each macro is a list of primitive operations
    return [
        [['md', '/d']],
        [['md', '/d/e']],
        [['o', '/d/s', 'w'], ['w', '/d/s', 100]],
        [['o', '/s', 'w'], ['w', '/s', 4096 + 600]],
        [['o', '/s', 'rw'], ['t', '/s', 200]],
        [['o', '/s', 'rw'], ['s', '/s', 0, 2], ['w', '/s', 3 * ss]],
        [['o', '/s', 'rw'], ['t', '/s', 0]],
        [['mv', '/s', '/d/t']],
        [['mv', '/d/t', '/s']],
        [['mv', '/d', '/q']],
        [['rm', '/s']],
        [['rmt', '/d']],
        [['rmt', '/q']],
        [['cls', '/d', 1], ['meta', '/d', 'modify_time', 7]],
        [['R']],
    ]


def run(case, tally):
    ss, start, idx = case
    macros = mixed(ss)
    r = Rig(ss, probe='end', tally=tally)
    if start == 'dirty':
        dirty(r)
    elif start == 'full':
        # allocation table nearly full: 512-byte sectors hold 128 entries
        r.step(['o', '/fill', 'w'])
        r.step(['w', '/fill', (ss // 4 - 8) * ss])
    elif start == 'minifull':
        # mini table nearly full
        for i in range(ss // 4 * 64 // 4032):
            r.step(['o', '/m%d' % i, 'w'])
            r.step(['w', '/m%d' % i, 4032])
    done = False
    for i in idx:
        for op in macros[i]:
            r.step(op)
    tally.outcome('%d entries' % len(r.m.t))
    r.finish()
    tally.count('files_validated')


def spaces(tier):
    T = tier == 'thorough'
    n = len(mixed(512))

    def cases(depth, starts, sss):
        def it():
            for k in range(1, depth + 1):
                for ss in sss:
                    for st in starts:
                        for w in words(range(n), k):
                            if w[-1] == n - 1:
                                continue
                            yield [ss, st, w]
        return it

    # sessions: each script is one edit session (closed and reopened for update in between)
    def sessions():
        scripts = [
            [['md', '/d']], [['rmt', '/d']],
            [['o', '/d/x', 'w'], ['w', '/d/x', 4000]], [['o', '/d/x', 'rw'], ['t', '/d/x', 4500]],
            [['o', '/y', 'w'], ['w', '/y', 65]], [['rm', '/y']], [['mv', '/y', '/d/y']],
            [['o', '/z', 'w'], ['w', '/z', 9000], ['rm', '/y']], [['o', '/z', 'rw'], ['t', '/z', 10]],
            [],
        ]
        return scripts

    def run_sessions(case, tally):
        ss, idx = case
        r = Rig(ss, probe='end', tally=tally)
        sc = sessions()
        for i in idx:
            for op in sc[i]:
                r.step(op)
            r.step(['R'])
        r.finish()
        tally.count('files_validated', len(idx) + 1)

    def session_cases():
        for k in range(1, (5 if T else 4) + 1):
            for ss in (512, 4096):
                for w in words(range(len(sessions())), k):
                    yield [ss, w]
    return [
        Space('mixed', cases(5 if T else 3, ('fresh', 'dirty'), (512, 4096)), run, 'every history over %d mixed macro operations' % n),
        Space('mixed-deep', cases(6 if T else 4, ('fresh',), (512,)), run, 'deeper histories on 512-byte sectors'),
        Space('near-full-table', cases(3 if T else 2, ('full', 'minifull'), (512, 4096)), run, 'the same with the allocation table or the mini table about to overflow'),
        Space('sessions', session_cases, run_sessions, 'every sequence of edit sessions, each closed, validated and reopened for update'),
    ]
