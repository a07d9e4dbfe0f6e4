"""C29: dependency listing visits every reachable mob once, dependencies first.

Every reference graph over three and four mobs (with self references and cycles, one bit
per edge) is built in a real file by changing one reference at a time, and the listing
from every mob compared with the graph; references of every kind and place (in a slot, a
sequence, an effect, a selector, ...), repeated, to missing mobs and to none, in several
orders, in a file being written, and reopened."""
import os, signal
import aaf2
from aaf2.mobid import MobID
from lib import aafrig, util
from lib.mc import Space, Violation, exc_site, tb_tail

LEVEL = 'model_checking'
ASSUMPTIONS = ['references to mobs are source references anywhere inside the mob']


def mid(i):
    return MobID(int=0x060a2b340101010501010f2013000000 << 128 | 0xc290000 | i)


KINDS = ['MasterMob', 'SourceMob', 'CompositionMob']


def mob(f, i):
    m = getattr(f.create, KINDS[i % 3])('m%d' % i)
    m.mob_id = mid(i)
    if KINDS[i % 3] == 'SourceMob':
        m.descriptor = f.create.TapeDescriptor()
    f.content.mobs.append(m)
    return m


def judge(root, edges, got, what, names):
    """edges: id -> list of ids that exist; got: listed ids"""
    reach, todo = set(), [root]
    while todo:
        for j in edges[todo.pop()]:
            if j not in reach:
                reach.add(j)
                todo.append(j)
    show = lambda x: [names.get(i, str(i)) for i in x]
    want = reach - {root}
    if len(got) != len(set(got)):
        raise Violation('%s: listed twice: %s' % (what, show(got)), 'twice')
    if set(got) != want:
        raise Violation('%s: lists %s, reachable are %s' % (what, show(got), sorted(show(want))), 'reach')
    # cycles among what is reached
    sub = want | {root}
    indeg = dict((i, 0) for i in sub)
    for i in sub:
        for j in set(edges[i]):
            indeg[j] += 1
    free, n = [i for i in sub if not indeg[i]], 0
    while free:
        i = free.pop()
        n += 1
        for j in set(edges[i]):
            indeg[j] -= 1
            if not indeg[j]:
                free.append(j)
    if n == len(sub):
        pos = dict((m, k) for k, m in enumerate(got))
        for i in got:
            for j in edges[i]:
                if pos[j] > pos[i]:
                    raise Violation('%s: %s is listed before %s, which it refers to; order %s' % (what, names.get(i), names.get(j), show(got)), 'order')
        return 'acyclic %d' % len(got)
    return 'cyclic %d' % len(got)


def listing(m, bound, what):
    def late(*a):
        raise Violation('%s, from %s: the listing does not end' % (what, m.name), 'endless')
    out = []
    old = signal.signal(signal.SIGVTALRM, late)
    signal.setitimer(signal.ITIMER_VIRTUAL, 1 + bound / 100.)
    try:
        for x in m.dependant_mobs():
            out.append(x.mob_id)
            if len(out) > bound:
                raise Violation('%s: does not end, %d mobs listed' % (what, len(out)), 'twice')
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    return out


def run_graphs(case, t):
    """case: number of mobs, first graph, number of graphs, use self edges, order of the slots"""
    n, lo, count, loops, order = case
    f = aaf2.open(aafrig.newpath(), 'w')
    try:
        mobs = [mob(f, i) for i in range(n)]
        pairs = [(i, j) for i in range(n) for j in (range(n) if order == 0 else reversed(range(n))) if loops or i != j]
        clips = {}
        for k, (i, j) in enumerate(pairs):
            slot = mobs[i].create_timeline_slot(25)
            slot.segment = f.create.SourceClip(media_kind='picture')
            slot.segment.length = 1
            slot.segment.mob_id = MobID(int=0)
            slot.segment.slot_id = 1
            clips[i, j] = slot.segment
        names = dict((m.mob_id, m.name) for m in mobs)
        cur = 0
        for g in range(lo, lo + count):
            gray = g ^ (g >> 1)
            for k, (i, j) in enumerate(pairs):
                if (gray ^ cur) >> k & 1:
                    clips[i, j].mob_id = mid(j) if gray >> k & 1 else MobID(int=0)
            cur = gray
            edges = dict((m.mob_id, []) for m in mobs)
            for k, (i, j) in enumerate(pairs):
                if gray >> k & 1:
                    edges[mid(i)].append(mid(j))
            what = 'references %s' % ' '.join('m%d>m%d' % pairs[k] for k in range(len(pairs)) if gray >> k & 1)
            t.state((n, gray))
            for m in mobs:
                try:
                    got = listing(m, 4 * n, what)
                    t.outcome(judge(m.mob_id, edges, got, '%s, from %s' % (what, m.name), names))
                except Violation as v:
                    v.case = [n, g, 1, loops, order]
                    raise
                except Exception as e:
                    raise Violation('%s: %s: %s [%s]' % (what, type(e).__name__, e, tb_tail(e)), exc_site(e), case=[n, g, 1, loops, order])
                t.step()
    finally:
        p = f.f.name
        f.f.close()
        os.unlink(p)


def graphs(n, loops, width, orders=(0,)):
    def cases():
        for order in orders:
            total = 2 ** (n * n if loops else n * (n - 1))
            for lo in range(0, total, width):
                yield [n, lo, min(width, total - lo), loops, order]
    return cases


# ---------------------------------------------------------------- where references can be

def clip(f, target):
    c = f.create.SourceClip(media_kind='picture', length=10)
    c['SourceID'].value = target
    c['SourceMobSlotID'].value = 1
    c['StartTime'].value = 0
    return c


def opgroup(f):
    from aaf2.auid import AUID
    d = f.dictionary
    try:
        op = d.lookup_operationdef('c29 effect')
    except Exception:
        op = f.create.OperationDef(AUID('00000000-0000-0000-0000-0000000c2900'), 'c29 effect', 'x')
        op.media_kind = 'picture'
        op['NumberInputs'].value = 2
        d.register_def(op)
    g = f.create.OperationGroup(op, 10)
    g.media_kind = 'picture'
    return g


def seq(f):
    s = f.create.Sequence(media_kind='picture')
    s.length = 10
    return s


def p_slot(f, m, targets):
    for x in targets:
        s = m.create_timeline_slot(25)
        s.segment = clip(f, x)


def p_static(f, m, targets):
    for x in targets:
        s = f.create.StaticMobSlot()
        s.slot_id = len(m.slots) + 1
        s.segment = clip(f, x)
        m.slots.append(s)


def p_sequence(f, m, targets):
    s = m.create_timeline_slot(25)
    s.segment = seq(f)
    for x in targets:
        s.segment.components.append(clip(f, x))


def p_nested_sequence(f, m, targets):
    s = m.create_timeline_slot(25)
    s.segment = seq(f)
    q = seq(f)
    for x in targets:
        q.components.append(clip(f, x))
    s.segment.components.append(q)


def p_effect(f, m, targets):
    s = m.create_timeline_slot(25)
    g = opgroup(f)
    for x in targets:
        g.segments.append(clip(f, x))
    s.segment = g


def p_selector(f, m, targets):
    s = m.create_timeline_slot(25)
    x = f.create.Selector()
    x.media_kind = 'picture'
    x.length = 10
    x['Selected'].value = clip(f, targets[0]) if targets else f.create.Filler('picture', 10)
    for y in targets[1:]:
        x['Alternates'].append(clip(f, y))
    s.segment = x


def p_scope(f, m, targets):
    s = m.create_timeline_slot(25)
    x = f.create.NestedScope()
    x.media_kind = 'picture'
    x.length = 10
    x['Slots'].value = [clip(f, y) for y in targets] or [f.create.Filler('picture', 10)]
    s.segment = x


def p_group(f, m, targets):
    s = m.create_timeline_slot(25)
    x = f.create.EssenceGroup()
    x.media_kind = 'picture'
    x.length = 10
    x['Choices'].value = [clip(f, y) for y in targets] or [clip(f, MobID(int=0))]
    s.segment = x


def p_pulldown(f, m, targets):
    for y in targets:
        s = m.create_timeline_slot(25)
        x = f.create.Pulldown()
        x.media_kind = 'picture'
        x.length = 10
        x['InputSegment'].value = clip(f, y)
        x['PulldownKind'].value = 'TwoThreePD'
        x['PulldownDirection'].value = 'TapeToFilmSpeed'
        x['PhaseFrame'].value = 0
        s.segment = x


def p_transition(f, m, targets):
    s = m.create_timeline_slot(25)
    s.segment = seq(f)
    s.segment.components.append(f.create.Filler('picture', 10))
    x = f.create.Transition()
    x.media_kind = 'picture'
    x.length = 2
    x['CutPoint'].value = 1
    g = opgroup(f)
    for y in targets:
        g.segments.append(clip(f, y))
    x['OperationGroup'].value = g
    s.segment.components.append(x)
    s.segment.components.append(f.create.Filler('picture', 10))


def p_rendering(f, m, targets):
    s = m.create_timeline_slot(25)
    g = opgroup(f)
    g.segments.append(f.create.Filler('picture', 10))
    if targets:
        g['Rendering'].value = clip(f, targets[0])
    for y in targets[1:]:
        h = opgroup(f)
        h['Rendering'].value = clip(f, y)
        g.segments.append(h)
    s.segment = g


def p_deep(f, m, targets):
    s = m.create_timeline_slot(25)
    q = seq(f)
    for y in targets:
        a = clip(f, y)
        for k in range(6):
            b = seq(f) if k % 2 else opgroup(f)
            (b.components if k % 2 else b.segments).append(a)
            a = b
        q.components.append(a)
    s.segment = q


PLACES = [p_slot, p_static, p_sequence, p_nested_sequence, p_effect, p_selector, p_scope, p_group, p_pulldown, p_transition, p_rendering, p_deep]
GONE, NONE = -1, -2
SHAPES = {
    'chain': [[1], [2], []], 'chain with missing ends': [[GONE, 1, NONE], [NONE, 2, GONE], [GONE]], 'repeated': [[1, 1, 2, 1], [2, 2], []], 'shared': [[1, 2], [3], [3], []], 'shared backwards': [[2, 1], [3], [3, 1], []],
    'cycle': [[1], [2], [0]], 'cycle below': [[1], [2], [1]], 'self': [[0, 1], [1], []], 'both': [[1, 0, GONE], [0, 2, 1], [1, 3], [0, NONE]], 'alone': [[], [0]], 'wide': [[1, 2, 3, 4, 5], [5], [], [2], [3, 1], []], 'wide backwards': [[5, 4, 3, 2, 1], [5], [], [2], [3, 1], []],
}


def run_place(case, t):
    """case: place of the first, of the other mobs, shape"""
    a, b, shape = case
    edges_ = SHAPES[shape]
    path = aafrig.newpath()
    f = aaf2.open(path, 'w')
    try:
        mobs = [mob(f, i) for i in range(len(edges_))]
        names = dict((m.mob_id, m.name) for m in mobs)
        for i, m in enumerate(mobs):
            PLACES[a if i == 0 else b](f, m, [mid(999) if j == GONE else MobID(int=0) if j == NONE else mid(j) for j in edges_[i]])
        edges = dict((mid(i), [mid(j) for j in e if j >= 0]) for i, e in enumerate(edges_))
        for stage in ('new', 'reopened'):
            what = '%s, references %s and %s, %s' % (shape, PLACES[a].__name__[2:], PLACES[b].__name__[2:], stage)
            for i in range(len(edges_)):
                try:
                    got = listing(f.content.mobs[mid(i)], 50, what)
                except Violation:
                    raise
                except Exception as e:
                    raise Violation('%s: %s: %s [%s]' % (what, type(e).__name__, e, tb_tail(e)), exc_site(e))
                t.outcome(judge(mid(i), edges, got, '%s, from m%d' % (what, i), names))
                t.step()
            t.state((a, b, shape, stage))
            if stage == 'new':
                f.close()
                f = aaf2.open(path, 'r')
    finally:
        f.f.close()
        os.unlink(path)


def places(full):
    def cases():
        for shape in SHAPES:
            for a in range(len(PLACES)):
                for b in range(len(PLACES)) if full else ((a, (a + 1) % len(PLACES)) if shape in ('chain', 'both') else (a,)):
                    yield [a, b, shape]
    return cases


def run_long(case, t):
    """case: length of a chain (with a reference back or not)"""
    n, back = case
    f = aaf2.open(aafrig.newpath(), 'w')
    try:
        mobs = [mob(f, i) for i in range(n)]
        edges = {}
        for i, m in enumerate(mobs):
            to = [i + 1] if i + 1 < n else [back] if back is not None else []
            p_slot(f, m, [mid(j) for j in to])
            edges[mid(i)] = [mid(j) for j in to]
        names = dict((m.mob_id, m.name) for m in mobs)
        for i in (0, n // 2, n - 1):
            got = listing(mobs[i], 2 * n, 'chain of %d' % n)
            t.outcome(judge(mid(i), edges, got, 'chain of %d, back to %s, from %d' % (n, back, i), names))
            t.step()
        t.state((n, back))
    finally:
        p = f.f.name
        f.f.close()
        os.unlink(p)


def spaces(tier):
    full = tier != 'quick'
    out = [Space('all graphs of 3 mobs', graphs(3, True, 64, (0, 1)), run_graphs, '2^9 graphs, both orders of the references', cpu_limit=30),
           Space('all graphs of 4 mobs', graphs(4, full, 256, (0, 1) if full else (0,)), run_graphs, 'every edge present or not', cpu_limit=60),
           Space('places', places(full), run_place, 'every kind and place of reference, several shapes of graph', cpu_limit=20),
           Space('chains', lambda: ([n, b] for n in (1, 2, 30, 1200) for b in (None, 0, n - 1)), run_long, 'long chains', cpu_limit=60)]
    return out
