"""C06: space released by deletes, shrinks and overwrites is reused.

A cycle is any word over the release/allocate alphabet followed by operations
that restore the same logical contents.  Every cycle is repeated, live and with
a close/reopen per round; file length, table sizes and directory slots must stop
growing, and every closed file must hold no sector that nothing owns."""
from lib.mc import Space, words, Violation
from lib.cfbrig import Rig, dirty

LEVEL = 'model_checking'
ASSUMPTIONS = ['allocation tables themselves are never shrunk by design: only growth without bound is a violation',
               'repetition count 14 exceeds the number of directory slots and mini sectors in a 512-byte sector, so a leak of one unit per round shows']
ROUNDS = 14

# each macro starts and ends with the canonical contents of its own object possible
MACROS = {
    'big-over': [['o', '/big', 'w'], ['w', '/big', 9000]],
    'big-trunc': [['o', '/big', 'rw'], ['t', '/big', 4096], ['s', '/big', 0, 2], ['w', '/big', 4904]],
    'big-mini': [['o', '/big', 'rw'], ['t', '/big', 100], ['s', '/big', 0, 2], ['w', '/big', 8900]],
    'big-zero': [['o', '/big', 'rw'], ['t', '/big', 0], ['w', '/big', 9000]],
    'big-rm': [['rm', '/big'], ['o', '/big', 'w'], ['w', '/big', 9000]],
    'mini-over': [['o', '/mini', 'w'], ['w', '/mini', 700]],
    'mini-trunc': [['o', '/mini', 'rw'], ['t', '/mini', 65], ['s', '/mini', 0, 2], ['w', '/mini', 635]],
    'mini-zero': [['o', '/mini', 'rw'], ['t', '/mini', 0], ['w', '/mini', 700]],
    'mini-grow': [['o', '/mini', 'rw'], ['s', '/mini', 0, 2], ['w', '/mini', 4000], ['t', '/mini', 700]],
    'mini-rm': [['rm', '/mini'], ['o', '/mini', 'w'], ['w', '/mini', 700]],
    'dir-rmt': [['rmt', '/d'], ['mds', '/d/e'], ['o', '/d/e/x', 'w'], ['w', '/d/e/x', 5000], ['o', '/d/y', 'w'], ['w', '/d/y', 90]],
    'dir-rm': [['md', '/q'], ['md', '/q/r'], ['rm', '/q/r'], ['rm', '/q']],
    'move': [['mv', '/big', '/d/big'], ['mv', '/mini', '/d/e/mini'], ['mv', '/d/big', '/big'], ['mv', '/d/e/mini', '/mini']],
    'touch': [['touch', '/t'], ['rm', '/t']],
    'empty-write': [['o', '/t', 'w'], ['w', '/t', 0], ['rm', '/t']],
    'tmp-tree': [['md', '/tmp'], ['mv', '/d', '/tmp/'], ['mv', '/tmp/d', '/d'], ['rmt', '/tmp']],
}
BASE = [['o', '/big', 'w'], ['w', '/big', 9000], ['o', '/mini', 'w'], ['w', '/mini', 700],
        ['mds', '/d/e'], ['o', '/d/e/x', 'w'], ['w', '/d/e/x', 5000], ['o', '/d/y', 'w'], ['w', '/d/y', 90],
        ['o', '/z', 'w'], ['w', '/z', 4500]]


def sizes(r):
    i = r.img
    return (len(i.data), len(i.fat), len(i.mfat), i.dir_slots, len(i.ents))


def run(case, tally):
    ss, mode, names = case
    r = Rig(ss, probe='end', tally=tally)
    for op in BASE:
        r.step(op)
    seen = []
    for n in range(ROUNDS):
        for nm in names:
            for op in MACROS[nm]:
                r.step(op)
        if mode == 'reopen':
            r.step(['R'])
            seen.append(sizes(r))
        else:
            # what the file under the container has come to hold
            seen.append((len(r.f.getvalue()),))
    # a few rounds may grow (first use of tables); then it must be flat
    half = seen[len(seen) // 2 - 1]
    if any(b > a for a, b in zip(half, seen[-1])):
        raise Violation('grows without bound: %s' % (seen[::3] + [seen[-1]]))
    r.finish()
    if mode == 'live':
        fresh = r.img
        if len(fresh.data) > seen[-1][0] + 2 * ss:
            raise Violation('closing grew the file: %d > %d' % (len(fresh.data), seen[-1][0]))
    tally.outcome(str(sizes(r)))


def run_tail(case, tally):
    """closing drops the unused tail; emptied space is reused by different contents"""
    ss, a, b, mode = case
    r = Rig(ss, probe='end', tally=tally)
    for k, n in enumerate(a):
        r.step(['o', '/a%d' % k, 'w'])
        r.step(['w', '/a%d' % k, n])
    r.step(['R'])
    full = len(r.img.data)
    for k in range(len(a)):
        r.step(['rm', '/a%d' % k])
    if mode == 'R':
        r.step(['R'])
    for k, n in enumerate(b):
        r.step(['o', '/b%d' % k, 'w'])
        r.step(['w', '/b%d' % k, n])
    r.finish()
    if len(r.img.data) > full + 2 * ss:
        raise Violation('%d bytes after replacing %s by %s, %d before' % (len(r.img.data), a, b, full))
    tally.outcome(len(r.img.data))


def spaces(tier):
    T = tier == 'thorough'

    def cases():
        for k in (1, 2, 3):
            for ss in (512, 4096) if k < 3 or T else (512,):
                for mode in ('live', 'reopen') if k < 3 or T else ('live',):
                    for w in words(sorted(MACROS), k):
                        yield [ss, mode, w]

    def core3():
        core = ['big-mini', 'mini-grow', 'dir-rmt', 'tmp-tree', 'big-zero', 'mini-rm', 'move']
        for mode in ('live', 'reopen'):
            for w in words(core, 3):
                yield [512, mode, w]

    def tails():
        sizes_ = ([20000], [5000, 5000, 5000], [100] * 40, [4096, 64] * 4, [9000, 700, 9000])
        for ss in (512, 4096):
            for a in sizes_:
                for mode in ('live', 'R'):
                    yield [ss, list(a), list(a), mode]
                    yield [ss, list(a), list(reversed(a)), mode]
    return [
        Space('cycles', cases, run, 'every cycle of up to 3 of %d macros, %d rounds, live and (length 2; thorough 3) reopened' % (len(MACROS), ROUNDS)),
        Space('cycles3', core3, run, 'every cycle of 3 core macros'),
        Space('tails', tails, run_tail, 'replacing all contents by equal ones'),
    ]
