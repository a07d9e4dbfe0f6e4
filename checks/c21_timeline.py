"""C21: timeline arithmetic agrees with laying the components out in time.

Every sequence of up to a bounded number of clips, fillers and transitions
over small lengths (also scaled to 64-bit lengths) in which each transition
fits into its neighbours: positions, slot length, the component at every time,
and the clips created over the slot from every start are compared with an
explicit layout, before and after reopening.  Every chain of source clips,
sequences and terminal segments over up to four mobs is walked."""
import itertools, os
import aaf2
from aaf2.mobid import MobID
from lib import aafrig
from lib.mc import Space, Violation, words, chunks, exc_site, tb_tail

LEVEL = 'exploration'
ASSUMPTIONS = ['times lie within the sequence; a transition is at most as long as each neighbour and two transitions do not meet within one component',
               'chains share one edit rate']


def legal(w):
    for i, (k, n) in enumerate(w):
        if k == 'T':
            if i == 0 or i == len(w) - 1 or w[i - 1][0] == 'T' or w[i + 1][0] == 'T':
                return False
            if n > w[i - 1][1] or n > w[i + 1][1]:
                return False
        else:
            lo = w[i - 1][1] if i and w[i - 1][0] == 'T' else 0
            hi = w[i + 1][1] if i + 1 < len(w) and w[i + 1][0] == 'T' else 0
            if lo + hi > n:
                return False
    return True


def layout(w):
    """[(start, end)] with absolute times"""
    out = []
    end = 0
    for k, n in w:
        if k == 'T':
            out.append((end - n, end))
            end = end - n
        else:
            out.append((end, end + n))
            end = end + n
    return out, end


def at(w, lay, t):
    for i, (k, n) in enumerate(w):
        if k == 'T' and lay[i][0] <= t < lay[i][1]:
            return i
    for i, (k, n) in enumerate(w):
        if k != 'T' and lay[i][0] <= t < lay[i][1]:
            return i
    raise AssertionError((w, t))


def make(f, k, n):
    if k == 'T':
        c = f.create.Transition('picture', n)
        c['CutPoint'].value = 0
        c['OperationGroup'].value = f.create.OperationGroup(f.dictionary.lookup_operationdef('none op'), n)
    elif k == 'F':
        c = f.create.Filler('picture', n)
    else:
        c = f.create.SourceClip(0, n)
    return c


def opdef(f):
    import uuid
    from aaf2.auid import AUID
    o = f.create.OperationDef(AUID(int=0x0d0102030405060708090a0b0c0ddead), 'none op', '')
    o.media_kind = 'picture'
    o['NumberInputs'].value = 2
    o['IsTimeWarp'].value = False
    o['OperationCategory'].value = 'OperationCategory_Effect'
    o['Bypass'].value = 0
    f.dictionary.register_def(o)


def check_seq(mob, slot, w, scale, tally, full):
    w = [(k, n * scale) for k, n in w]
    lay, total = layout(w)
    seq = slot.segment
    one = [[[list(x) for x in w], 1]]

    def bad(msg, *a):
        raise Violation('%s: %s' % (w, msg % a if a else msg), case=one)
    comps = list(seq.components)
    pos = list(seq.positions())
    if [(i, p) for i, p, c in pos] != [(i, lay[i][0]) for i in range(len(w))]:
        bad('positions %s, expected %s', [(i, p) for i, p, c in pos], [l[0] for l in lay])
    if any(c is not comps[i] for i, p, c in pos):
        bad('positions yields other components')
    if slot.length != total:
        bad('slot length %s, expected %s', slot.length, total)
    if scale == 1:
        times = range(0, total)
    else:
        times = sorted({t for s, e in lay for t in (s - 1, s, s + 1, e - 1, e, e + 1) if 0 <= t < total})
    for t in times:
        want = at(w, lay, t)
        got = seq.index_at_time(t)
        if got != want:
            bad('component at time %d is number %s, expected %d', t, got, want)
        if seq.component_at_time(t) is not comps[want]:
            bad('component_at_time(%d) gives another component', t)
        tally.step()
    if full:
        for origin in (7, -3, 0):
            slot.origin = origin
            if slot.length != total:
                bad('length %s with origin %d, components take %s', slot.length, origin, total)
            for t in sorted(set(list(times)[:6] + [0, total - 1, total, total + 1])):
                if t < 0:
                    continue
                for ln in (None, 0, 1, total):
                    c = mob.create_source_clip(slot.slot_id, t, ln)
                    want = max(total - t, 0) if ln is None else ln
                    if (c.start, c.length) != (t, want):
                        bad('slot with origin %d: clip from %d with length %s covers %s+%s, expected %s+%s', origin, t, ln, c.start, c.length, t, want)
                    if c.mob is not mob or c.slot is not slot or c.media_kind.lower() != 'picture':
                        bad('clip refers to %s %s %s', c.mob, c.slot, c.media_kind)
                    tally.step()
            c = mob.create_source_clip(slot.slot_id)
            if (c.start, c.length) != (0, total):
                bad('clip over the whole slot covers %s+%s', c.start, c.length)
        c = mob.create_source_clip(slot.slot_id, media_kind='sound')
        if c.media_kind.lower() != 'sound':
            bad('clip media kind %s', c.media_kind)
    tally.state(w)


def run(case, tally):
    p = aafrig.writefile(aafrig.newpath('c21'), aafrig.base_image())
    try:
        f = aaf2.open(p, 'r+')
        built = []
        try:
            opdef(f)
            mob = f.create.CompositionMob('m')
            f.content.mobs.append(mob)
            for w, scale in case:
                slot = mob.create_picture_slot()
                for k, n in w:
                    slot.segment.components.append(make(f, k, n * scale))
                check_seq(mob, slot, [tuple(x) for x in w], scale, tally, True)
                built.append(slot.slot_id)
            mid = mob.mob_id
        finally:
            f.close()
        with aaf2.open(p, 'r') as f:
            mob = f.content.mobs[mid]
            for (w, scale), sid in zip(case, built):
                check_seq(mob, mob.slot_at(sid), [tuple(x) for x in w], scale, tally, False)
    finally:
        os.unlink(p)


# ------------------------------------------------------------------ nested scopes, plain segments

def run_scope(case, tally):
    f = aaf2.open()
    try:
        for lens in case:
            mob = f.create.CompositionMob('m')
            slot = mob.create_timeline_slot(25)
            scope = f.create.NestedScope()
            for n in lens:
                scope.slots.append(f.create.Filler('picture', n))
            slot.segment = scope
            if slot.length != max(lens):
                raise Violation('nested scope over lengths %s has length %s' % (lens, slot.length), case=[lens])
            slot2 = mob.create_timeline_slot(25)
            slot2.segment = f.create.Filler('picture', lens[0])
            if slot2.length != lens[0]:
                raise Violation('slot with a filler of %d has length %s' % (lens[0], slot2.length), case=[lens])
            f.content.mobs.append(mob)
            for s in (slot, slot2):
                c = mob.create_source_clip(s.slot_id, 1)
                if c.length != max(s.length - 1, 0):
                    raise Violation('clip over %s covers %s' % (lens, c.length), case=[lens])
            f.content.mobs.pop(mob.mob_id)
            tally.step(4)
            tally.state(lens)
    finally:
        f.close()


# ------------------------------------------------------------------ chains

def run_chain(case, tally):
    """links: what the slot of the next mob holds"""
    f = aaf2.open()
    try:
        opdef(f)
        for links in case:
            mobs = [f.create.MasterMob('m%d' % i) for i in range(len(links) + 1)]
            f.content.mobs.extend(mobs)
            segs = []
            expect = []
            clip = None
            raises = False

            def refer(c, i):
                """let c refer to the slot of mob i"""
                c.mob_id = mobs[i].mob_id
                c.slot_id = 1
            n = len(links)
            # from the end of the chain to its start
            ends = []
            for i in range(n - 1, -1, -1):
                k = links[i]
                slot = mobs[i].create_timeline_slot(25, 1)
                if k[0] == 'clip':
                    s = f.create.SourceClip(0, 6)
                    if i + 1 < n:
                        refer(s, i + 1)
                    here = [s]
                elif k[0] == 'seq':
                    s = f.create.Sequence('picture')
                    cs = [f.create.SourceClip(0, 3) for x in range(2)]
                    for c in cs:
                        if i + 1 < n:
                            refer(c, i + 1)
                        s.components.append(c)
                    here = None
                else:
                    if k[0] == 'filler':
                        s = f.create.Filler('picture', 6)
                    elif k[0] == 'op':
                        s = f.create.OperationGroup(f.dictionary.lookup_operationdef('none op'), 6)
                    elif k[0] == 'group':
                        s = f.create.EssenceGroup('picture', 6)
                    elif k[0] == 'pulldown':
                        s = f.create.Pulldown('picture', 6)
                    elif k[0] == 'timecode':
                        s = f.create.Timecode(25)
                    elif k[0] == 'gone':
                        s = f.create.SourceClip(0, 6, MobID(int=12345), 1)
                    here = [s]
                slot.segment = s
                segs.insert(0, (k, s, here))
            start = 0
            for t0 in (0, 2, 3, 5):
                top = f.create.SourceClip(t0, 1)
                refer(top, 0)
                expect = []
                cur = t0
                err = False
                for k, s, here in segs:
                    if k[0] == 'seq':
                        c = s.components[cur // 3]
                        expect.append(c)
                        cur = 0
                    elif k[0] == 'timecode':
                        err = True
                        break
                    else:
                        expect.append(s)
                        cur = 0
                        if k[0] not in ('clip',):
                            break
                got = []
                try:
                    for x in top.walk():
                        got.append(x)
                        if len(got) > 20:
                            break
                    raised = False
                except NotImplementedError:
                    raised = True
                if len(got) != len(expect) or any(a is not b for a, b in zip(got, expect)) or raised != err:
                    raise Violation('walking %s from %d yields %s%s, expected %s%s' % (
                        links, t0, [type(x).__name__ for x in got], ' and an error' if raised else '', [type(x).__name__ for x in expect], ' and an error' if err else ''), case=[links])
                tally.step()
            tally.state(links)
            for m in mobs:
                f.content.mobs.pop(m.mob_id)
        # a clip that refers to nothing
        c = f.create.SourceClip(0, 3)
        if list(c.walk()) != [] or c.mob is not None or c.slot is not None:
            raise Violation('a clip without source yields %s' % list(c.walk()))
    finally:
        f.close()


def spaces(tier):
    T = tier == 'thorough'
    alpha = [('C', 1), ('C', 2), ('C', 4), ('F', 3), ('F', 0), ('T', 1), ('T', 2), ('T', 0)]

    def seqs():
        for w in words(alpha, 5 if T else 4, 1):
            if legal(w):
                yield [[list(x) for x in w], 1]
        for w in words([('C', 2), ('F', 3), ('T', 1), ('T', 2)], 7 if T else 5, 5):
            if legal(w):
                yield [[list(x) for x in w], 1]
        for w in words([('C', 2), ('F', 3), ('T', 1)], 3, 1):
            if legal(w):
                for s in (1000, (1 << 31) - 1, 1 << 32, 1 << 58):
                    yield [[list(x) for x in w], s]

    def chains():
        ends = [['filler'], ['op'], ['group'], ['pulldown'], ['timecode'], ['gone'], ['clip'], ['seq']]
        for n in range(1, 6 if T else 5):
            for w in words([['clip'], ['seq']], n - 1):
                for e in ends:
                    yield w + [e]
    return [
        Space('sequences', lambda: chunks(seqs(), 60), run, 'every legal sequence of up to %d components over %d kinds, longer ones over 4, scaled ones; every time and start' % (5 if T else 4, len(alpha))),
        Space('scopes', lambda: chunks(words([0, 1, 5, 3], 4, 1), 60), run_scope, 'nested scopes over every combination of up to 4 lengths'),
        Space('chains', lambda: chunks(chains(), 15), run_chain, 'every chain of clips and sequences with every end'),
    ]
