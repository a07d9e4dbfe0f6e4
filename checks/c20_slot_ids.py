"""C20: slot ids within a mob are unique and resolvable.

Every set of existing slot ids (subsets of a small universe with gaps and
zero, and sets holding the largest id, in several insertion orders), followed
by every word over the mob constructors that make slots, explicit ids, removal
and id changes; after each operation the ids of the mob are compared with a
set model and every id of the universe is looked up; all mobs are looked at
again after saving and reopening, where further slots are created."""
import itertools, os
import aaf2
from lib import aafrig
from lib.mc import Space, Violation, words, chunks, exc_site, tb_tail

LEVEL = 'exploration'
ASSUMPTIONS = ['ids up to 7 and the three largest 32-bit ids', 'slots that were given equal ids directly are outside the property']
BIG = [0xfffffffe, 0xffffffff]
PROBE = list(range(0, 10)) + BIG

def make_essence(m):
    e, slot = m.create_essence(25)
    e.open('w').write(b'essence')
    return [slot]


# constructor -> (mob classes, how many slots, explicit id it asks for)
MAKERS = {
    'tl': lambda m: [m.create_timeline_slot(25)],
    'seq': lambda m: [m.create_empty_sequence_slot(25, media_kind='picture')],
    'pic': lambda m: [m.create_picture_slot()],
    'snd': lambda m: [m.create_sound_slot(48000)],
    'empty': lambda m: [m.create_empty_slot(25)],
    'tc': lambda m: [m.create_timecode_slot(25, 25)],
    'ess': make_essence,
    'off': lambda m: [m.create_essence(25, 'sound', offline=True)[1]],
    'tape': lambda m: list(m.create_tape_slots('t', 25, 25, media_kind='picture')),
}
ASKS = {'ess': 1, 'off': 1, 'tape': 1}
SOURCE = ('empty', 'tc', 'ess', 'off', 'tape')


class Hist(object):
    def __init__(self, f, case, tally):
        self.f, self.case, self.t = f, case, tally
        kind, ids, ops = case
        self.m = getattr(f.create, kind)('m')
        f.content.mobs.append(self.m)
        self.kind = kind
        self.ess = False
        if kind == 'SourceMob':
            self.m.descriptor = f.create.TapeDescriptor()
        self.ids = []
        for i in ids:
            s = f.create.TimelineMobSlot(i, 's%d' % i, f.create.Filler('picture', 1), edit_rate=25)
            self.m.slots.append(s)
            self.ids.append(i)

    def look(self, what):
        got = [s.slot_id for s in self.m.slots]
        if got != self.ids:
            raise Violation('%s: slots have ids %s, expected %s' % (what, got, self.ids), case=[self.case])
        for i in PROBE:
            try:
                s = self.m.slot_at(i)
            except IndexError:
                s = None
            if (s is not None) != (i in self.ids):
                raise Violation('%s: lookup of id %d %s, ids are %s' % (what, i, 'failed' if s is None else 'succeeded', self.ids), case=[self.case])
            if s is not None and s.slot_id != i:
                raise Violation('%s: lookup of id %d gave slot %s' % (what, i, s.slot_id), case=[self.case])
            if s is not None and s is not self.m.slots[self.ids.index(i)]:
                raise Violation('%s: lookup of id %d gave another slot' % (what, i), case=[self.case])

    def step(self, op):
        k = op[0]
        if k == 'rm':
            if op[1] >= len(self.ids):
                return False
            self.m.slots.pop(op[1])
            del self.ids[op[1]]
        elif k == 'id':
            if op[1] in self.ids or not self.ids:
                return False
            self.m.slots[len(self.ids) - 1].slot_id = op[1]
            self.ids[-1] = op[1]
        elif k == 'at':
            call = op[2]
            try:
                if call == 'tl':
                    s = self.m.create_timeline_slot(25, op[1])
                elif call == 'seq':
                    s = self.m.create_empty_sequence_slot(25, op[1], 'sound')
                else:
                    s = self.m.create_empty_slot(25, 'picture', op[1])
            except ValueError:
                if op[1] not in self.ids:
                    raise
                self.t.outcome('refused')
            else:
                if op[1] in self.ids:
                    raise Violation('id %d was given to a second slot, ids %s' % (op[1], self.ids), case=[self.case])
                if s.slot_id != op[1]:
                    raise Violation('asked for id %d, got %s' % (op[1], s.slot_id), case=[self.case])
                self.ids.append(op[1])
        else:
            asks = ASKS.get(k)
            if k == 'ess':
                if self.ess:
                    return False
                self.ess = True
            try:
                made = MAKERS[k](self.m)
            except ValueError:
                if asks not in self.ids:
                    raise
                self.t.outcome('refused')
                made = []
                # a refused call made no slot
            else:
                if asks is not None and (asks in self.ids or made[0].slot_id != asks):
                    raise Violation('%s gave id %s with ids %s taken' % (k, made[0].slot_id, self.ids), case=[self.case])
            for s in made:
                if s.slot_id in self.ids:
                    raise Violation('%s gave id %s a second time, ids were %s' % (k, s.slot_id, self.ids), sig='duplicate-id', case=[self.case])
                self.ids.append(s.slot_id)
            self.t.outcome(k)
        return True

    def run(self):
        self.look('at start')
        for n, op in enumerate(self.case[2]):
            self.t.state((self.kind, tuple(self.ids)))
            try:
                if self.step(op) is False:
                    return
            except Violation:
                raise
            except Exception as e:
                raise Violation('%s with ids %s raised %s: %s [%s]' % (op, self.ids, type(e).__name__, e, tb_tail(e)), sig='exc:%s' % exc_site(e), case=[self.case])
            self.t.step()
            for s in self.m.slots:
                if s.segment is None:
                    s.segment = self.f.create.Filler('picture', 1)
            self.look('after %s' % self.case[2][:n + 1])


def run(case, tally):
    p = aafrig.writefile(aafrig.newpath('c20'), aafrig.base_image())
    hs = {}
    try:
        f = aaf2.open(p, 'r+')
        try:
            for c in case:
                h = Hist(f, c, tally)
                h.run()
                hs[h.m.mob_id] = h
        finally:
            f.close()
        f = aaf2.open(p, 'r+')
        try:
            for mid, h in hs.items():
                h.f, h.m = f, f.content.mobs[mid]
                h.look('after reopen')
                h.step(['tl'])
                h.m.slots[len(h.ids) - 1].segment = f.create.Filler('sound', 2)
                h.look('a slot made after reopen')
        finally:
            f.close()
    finally:
        os.unlink(p)


def spaces(tier):
    T = tier == 'thorough'

    def sets_(u, k):
        for n in range(k + 1):
            for c in itertools.combinations(u, n):
                yield list(c)

    def single():
        """every set, every operation"""
        u = list(range(7)) + BIG
        for kind in ('SourceMob', 'MasterMob'):
            ops = [[k] for k in MAKERS if kind == 'SourceMob' or k not in SOURCE]
            if kind == 'SourceMob':
                ops += [['at', i, c] for i in (0, 1, 3, 8, 0xffffffff) for c in ('tl', 'seq', 'empty')]
            for s in sets_(u, len(u)):
                if BIG[0] in s and BIG[1] not in s:
                    continue
                if kind == 'MasterMob' and not T and len(s) > 4:
                    continue
                for o in ops:
                    yield [kind, s, [o]]

    def orders():
        for n in (2, 3, 4):
            for s in itertools.permutations((0, 1, 2, 3, 5), n):
                if list(s) != sorted(s):
                    yield ['CompositionMob', list(s), [['tl'], ['tl']]]

    def histories():
        ops = [['tl'], ['pic'], ['at', 2, 'tl'], ['at', 0, 'seq'], ['at', 3, 'tl'], ['rm', 0], ['rm', 1], ['id', 4], ['id', 0]]
        for n in ((3, 4, 5) if T else (3, 4)):
            for w in words(ops, n):
                yield ['CompositionMob', [], w]
        sops = [['tape'], ['ess'], ['off'], ['tc'], ['empty'], ['rm', 0], ['at', 1, 'empty'], ['at', 2, 'tl']]
        for n in ((3, 4) if T else (3,)):
            for w in words(sops, n):
                yield ['SourceMob', [], w]
    return [
        Space('sets', lambda: chunks(single(), 150), run, 'every subset of {0..6, two largest} as existing ids x every constructor'),
        Space('orders', lambda: chunks(orders(), 100), run, 'existing ids in every insertion order'),
        Space('histories', lambda: chunks(histories(), 150), run, 'every word of up to %d operations' % (5 if T else 4)),
    ]
