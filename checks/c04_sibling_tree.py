"""C04: sibling trees stay ordered, complete and balanced.

(1) explicit-state search: states are the sibling trees stored in the closed
    file (shape, colours, names, parsed independently), transitions are
    add / remove / rename of one name through the library on the reopened file,
    run to a fixed point over a name universe;
(2) every insertion order followed by every (partial) removal order without
    reopening; (3) directories far larger than every internal batch size, over
    all combinations of structured insertion and removal orders."""
import itertools
from aaf2 import cfb as C
from lib import cfbref
from lib.mc import Space, Violation
from lib.util import MemFile

LEVEL = 'model_checking'
ASSUMPTIONS = ['upper-casing is one to one: characters without a single upper case character stay',
               'balance: longest root-to-leaf path at most twice the shortest (a red-black tree bound)']

UNIVERSES = [
    ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'],
    ['Z', '_', 'b', 'aa', 'C', '~', 'bbb', '1'],
    ['x', 'Xx', 'xXx', 'yX', 'Y', 'xY', 'zzz', '[['],
    ['h', 'g', 'f', 'e', 'dddd', 'ccc', 'bb', 'a'],
    ['a', 'b', 'c', 'd', 'e', 'f', 'g'],
    ['\u00e9', '\u00c8', 'e', 'z', '_', '\u0416', '\u0434'],
    ['A' * 31, 'a' * 30, 'b' * 31, 'B' * 30 + '_', 'c', '^', 'q'],
    ['\u00df', '\U0001f600', 'ab', '\ufffd\ufffd', '\ud7ff\ufa00', 'SS', '\U0001f601'],
    ['k1', 'K', 'j2', 'K10', 'j', 'J20', 'k_'],
]


def shape(img):
    def rec(i):
        if i == 0xffffffff:
            return None
        e = img.ents[i]
        return (e.name, e.color, rec(e.left), rec(e.right))
    return rec(img.ents[0].child)


def judge(data, want, root='/'):
    img = cfbref.parse(data)
    if img.errors:
        raise Violation('malformed: %s' % '; '.join(img.errors[:3]))
    pre = root.rstrip('/') + '/'
    got = {p[len(pre):] for p in img.tree if p.startswith(pre)}
    if got != set(want):
        raise Violation('stored tree holds %s, expected %s' % (sorted(got)[:20], sorted(want)[:20]))
    n, mn, mx = img.depths.get(root, (0, 0, 0))
    if mx > 2 * max(mn, 1):
        raise Violation('unbalanced: %d entries, path lengths %d..%d' % (n, mn, mx))
    return img


def bfs(case, tally):
    names, rename, cap = case
    f = MemFile()
    x = C.CompoundFileBinary(f, 'wb+', sector_size=512)
    x.close()
    init = f.getvalue()
    seen = {None}
    frontier = [(init, frozenset(), [])]
    while frontier:
        nxt = []
        for image, have, hist in frontier:
            for n in names:
                todo = [('rm', n)] if n in have else [('add', n)]
                if rename and n in have:
                    todo += [('mv', n, m) for m in names if m not in have]
                for t in todo:
                    f = MemFile(image)
                    x = C.CompoundFileBinary(f, 'rb+')
                    if t[0] == 'rm':
                        x.remove('/' + n)
                        want = have - {n}
                    elif t[0] == 'add':
                        x.open('/' + n, 'w')
                        want = have | {n}
                    else:
                        x.move('/' + n, '/' + t[2])
                        want = (have - {n}) | {t[2]}
                    live = {e.name for e in x.listdir('/')}
                    x.close()
                    data = f.getvalue()
                    tally.step()
                    try:
                        if live != set(want):
                            raise Violation('live listing %s, expected %s' % (sorted(live), sorted(want)))
                        img = judge(data, want)
                    except Violation as e:
                        raise Violation('%s after %s' % (e.msg, hist + [list(t)]))
                    s = shape(img)
                    if s not in seen:
                        seen.add(s)
                        tally.state(s)
                        if len(seen) <= cap:
                            nxt.append((data, want, hist + [list(t)]))
                        else:
                            tally.capped = True
        frontier = nxt
    tally.outcome('%d trees' % len(seen))


def live(case, tally):
    names, ins, rem, renames = case
    f = MemFile()
    x = C.CompoundFileBinary(f, 'wb+', sector_size=512)
    have = []
    for i in ins:
        x.open('/' + names[i], 'w')
        have.append(names[i])
        tally.step()
    for i in rem:
        if renames:
            x.move('/' + names[i], '/r' + names[i])
            have[have.index(names[i])] = 'r' + names[i]
        else:
            x.remove('/' + names[i])
            have.remove(names[i])
        tally.step()
    x.close()
    img = judge(f.getvalue(), have)
    tally.state(shape(img))


def orders(n):
    r = list(range(n))
    half = n // 2
    inside = [half]
    for k in range(1, n):
        for j in (half - k, half + k):
            if 0 <= j < n:
                inside.append(j)
    rev = r[::-1]
    bit = sorted(r, key=lambda i: (int(bin(i)[2:].zfill(12)[::-1], 2), i))
    return {'asc': r, 'desc': rev, 'in-out': inside, 'out-in': inside[::-1], 'even-odd': r[::2] + r[1::2],
            'bitrev': bit, 'swap': [i ^ 1 for i in r if (i ^ 1) < n] + ([n - 1] if n % 2 else []),
            'blocks': [i for b in range(0, n, 7) for i in reversed(r[b:b + 7])]}


def big(case, tally):
    ss, n, style, io, ro, kind = case
    names = {'num': ['%04d' % i for i in range(n)],
             'mixed': [('%x' % (i * 2654435761 % 4096)).ljust(1 + i % 6, 'aB_'[i % 3]) + '-%d' % i for i in range(n)]}[style]
    o = orders(n)
    f = MemFile()
    x = C.CompoundFileBinary(f, 'wb+', sector_size=ss)
    x.makedir('/top')
    have = set()
    for k, i in enumerate(o[io]):
        if kind == 'stream':
            x.open('/top/' + names[i], 'w')
        else:
            x.makedir('/top/' + names[i])
        have.add(names[i])
        tally.step()
        if k == n // 2:
            x.close()
            tally.state(shape(judge(f.getvalue(), have, '/top')))
            f = MemFile(f.getvalue())
            x = C.CompoundFileBinary(f, 'rb+')
    for k, i in enumerate(o[ro]):
        x.remove('/top/' + names[i])
        have.discard(names[i])
        tally.step()
        if k in (n // 4, n // 2, n - 3):
            x.close()
            tally.state(shape(judge(f.getvalue(), have, '/top')))
            f = MemFile(f.getvalue())
            x = C.CompoundFileBinary(f, 'rb+')
    x.close()
    judge(f.getvalue(), have, '/top')
    tally.outcome('emptied')


def rebalance(case, tally):
    """the one randomised routine: every order its shuffle can choose"""
    n, perm = case
    f = MemFile()
    x = C.CompoundFileBinary(f, 'wb+', sector_size=512)
    names = ['n%d' % i for i in range(n)]
    for nm in names:
        x.open('/' + nm, 'w')
    import random
    real = random.shuffle

    def chosen(seq):
        seq[:] = [seq[i] for i in perm]
    random.shuffle = chosen
    try:
        x.root.rebalance_children_tree()
    finally:
        random.shuffle = real
    tally.step()
    x.close()
    tally.state(shape(judge(f.getvalue(), names)))


def spaces(tier):
    T = tier == 'thorough'

    def bfs_cases():
        for u in UNIVERSES:
            yield [u if T else u[:7], False, 10 ** 6]
        yield [UNIVERSES[0][:6], True, 10 ** 6]
        yield [UNIVERSES[1][:6], True, 10 ** 6]
        if T:
            yield [UNIVERSES[0][:7], True, 10 ** 6]
            yield [UNIVERSES[0] + ['i'], False, 10 ** 6]

    def live_cases():
        names = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h']
        for n, k in ((5, 5), (6, 3), (7, 1)) if not T else ((6, 6), (7, 3), (8, 1)):
            for ins in itertools.permutations(range(n)):
                for rem in itertools.permutations(range(n), k):
                    yield [names[:n], list(ins), list(rem), False]
        for ins in itertools.permutations(range(5)):
            for rem in itertools.permutations(range(5), 3):
                yield [names[:5], list(ins), list(rem), True]

    def big_cases():
        for n in (140, 270) if not T else (140, 270, 700):
            for style in ('num', 'mixed'):
                for io in orders(4):
                    for ro in orders(4):
                        yield [4096 if n > 140 else 512, n, style, io, ro, 'stream' if n > 140 else 'dir']

    def reb_cases():
        for n in range(1, 7 if T else 6):
            for p in itertools.permutations(range(n)):
                yield [n, list(p)]
    return [
        Space('fixed-point', bfs_cases, bfs, 'all reachable stored trees over each name universe, add/remove/rename on the reopened file', cpu_limit=3000),
        Space('live-permutations', live_cases, live, 'every insertion order and every partial removal/rename order without reopening'),
        Space('large', big_cases, big, 'all pairs of 8 structured insertion and 8 removal orders over directories of hundreds of entries', cpu_limit=300),
        Space('rebalance', reb_cases, rebalance, 'every order the shuffle may choose'),
    ]
