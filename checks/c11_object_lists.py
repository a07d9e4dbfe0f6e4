"""C11: ordered object collections behave like lists.

Every word over the collection's whole interface (all index classes, fresh,
re-offered, foreign and attached objects, list, tuple and generator arguments)
runs on a real collection next to a Python list; after each operation length,
iteration, indexing by every index, get and membership are compared, and the
stored order is compared after close through the independent reader and a
reopened file.  Contexts: collection unattached, attached, loaded from a file,
and words split over two sessions."""
import gc, os
import aaf2
from aaf2.cache import LRUCacheDict
from lib import aafrig, aafref, util
from lib.mc import Space, Violation, words, chunks

LEVEL = 'model_checking'
ASSUMPTIONS = ['collections of owned objects of the standard model: sequence components, mob slots, mob comments, key-frame lists',
               'an object offered to a collection is distinct from those in other unattached collections']

PID_LENGTH = 0x0202


class Ctx(object):
    """one collection under test and its list model"""
    KINDS = {}

    def __init__(self, f, idx, kind, where):
        self.f = f
        self.idx = idx
        self.kind = kind
        self.where = where
        self.n = 0
        self.popped = None
        self.model = []
        self.absent = kind in ('comments',)
        self.setup()

    def setup(self):
        f = self.f
        self.mob = f.create.CompositionMob('h%d' % self.idx)
        self.id = self.mob.mob_id
        if self.where != 'unattached':
            f.content.mobs.append(self.mob)
        if self.kind == 'components':
            s = self.mob.create_empty_sequence_slot(25)
        elif self.kind == 'points':
            s = self.mob.create_empty_sequence_slot(25)
            s.segment.components.append(f.create.Filler(media_kind='picture', length=1))

    @property
    def coll(self):
        return self.owner()[0]

    def owner(self):
        if self.kind == 'components':
            for s in self.mob.slots:
                return s.segment.components, s.segment
        if self.kind == 'slots':
            return self.mob.slots, self.mob
        return self.mob['UserComments'], self.mob

    def new(self):
        self.n += 1
        t = self.n
        if self.kind == 'components':
            o = self.f.create.Filler(media_kind='picture', length=t)
        elif self.kind == 'slots':
            o = self.f.create.TimelineMobSlot(t, edit_rate=25)
            o.segment = self.f.create.Filler(media_kind='picture', length=t)
        else:
            o = self.f.create.TaggedValue('t%d' % t, t)
        return o, t

    def tag(self, o):
        if self.kind == 'components':
            return o.length
        if self.kind == 'slots':
            return o.slot_id
        return o.value

    def wrong(self):
        return self.f.create.Filler(media_kind='picture', length=9) if self.kind != 'components' else self.f.create.TaggedValue('x', 1)

    def rebind(self, f):
        """after reopen"""
        self.f = f
        self.mob = f.content.mobs[self.id]
        self.model = [(None, t) for _, t in self.model]
        self.popped = None

    def forget(self):
        self.model = [(None, t) for _, t in self.model]
        if self.where != 'unattached':
            self.mob = None
        self.popped = None

    def remember(self):
        if self.mob is None:
            self.mob = self.f.content.mobs[self.id]


def idxs(n):
    return list(range(-n - 2, n + 2))


def step(c, op, foreign):
    """one operation on the real collection and the list; both must agree"""
    v = c.coll
    m = list(c.model)
    k = op[0]
    reject = False
    popped = c.popped
    call = None
    if k == 'append':
        o = c.new()
        call, m2 = (lambda: v.append(o[0])), m + [o]
    elif k == 'reappend':           # put back what was taken out last
        o = popped
        if o is None:
            return False
        call, m2 = (lambda: v.append(o[0])), m + [o]
        popped = None
    elif k == 'dup':                # an object that is already somewhere
        o = c.pick()
        if o is None or c.where == 'unattached':
            return False
        if op[1] == 'append':
            call = lambda: v.append(o)
        elif op[1] == 'insert':
            call = lambda: v.insert(0, o)
        elif op[1] == 'set':
            call = lambda: v.__setitem__(len(m) - 1, o)
            if len(m) < 2:
                return False
        elif op[1] == 'extend':
            n = c.new()
            call = lambda: v.extend([n[0], o])
        else:
            n = c.new()
            call = lambda: setattr(v, 'value', [n[0], n[0]])
        m2, reject = m, True
    elif k == 'bad':                # wrong class or foreign file
        o = c.wrong() if op[2] == 'class' else foreign.create.Filler(media_kind='picture', length=3) if c.kind == 'components' else \
            foreign.create.TimelineMobSlot(3, edit_rate=25) if c.kind == 'slots' else foreign.create.TaggedValue('z', 1)
        n = c.new()
        if op[1] == 'append':
            call = lambda: v.append(o)
        elif op[1] == 'insert':
            call = lambda: v.insert(0, o)
        elif op[1] == 'set':
            if not m:
                return False
            call = lambda: v.__setitem__(0, o)
        elif op[1] == 'extend':
            call = lambda: v.extend([n[0], o])
        else:
            call = lambda: setattr(v, 'value', [n[0], o])
        m2, reject = m, True
    elif k == 'insert':
        o = c.new()
        call = lambda: v.insert(op[1], o[0])
        m2 = list(m)
        m2.insert(op[1], o)
    elif k == 'reinsert':
        o = popped
        if o is None:
            return False
        call = lambda: v.insert(op[1], o[0])
        m2 = list(m)
        m2.insert(op[1], o)
        popped = None
    elif k == 'extend':
        os_ = [c.new() for _ in range(op[1])]
        objs = [o[0] for o in os_]
        arg = objs if op[2] == 'list' else tuple(objs) if op[2] == 'tuple' else (o for o in objs)
        call = lambda: v.extend(arg)
        m2 = m + os_
    elif k == 'set':
        o = c.new()
        m2 = list(m)
        try:
            m2[op[1]] = o
        except IndexError:
            reject = True
        call = lambda: v.__setitem__(op[1], o[0])
    elif k == 'pop':
        m2 = list(m)
        try:
            popped2 = m2.pop(op[1])
        except IndexError:
            reject = True
        else:
            def call():
                r = v.pop(op[1])
                if c.tag(r) != popped2[1] or (popped2[0] is not None and r is not popped2[0]):
                    raise Violation('pop(%d) gave %r, expected element %r' % (op[1], c.tag(r), popped2[1]))
                c._popped = (r, popped2[1])
        if reject:
            call = lambda: v.pop(op[1])
    elif k == 'clear':
        call, m2 = v.clear, []
    elif k == 'value':
        os_ = [c.new() for _ in range(op[1])]
        objs = [o[0] for o in os_]
        arg = objs if op[2] == 'list' else (o for o in objs)
        call = lambda: setattr(v, 'value', arg)
        m2 = os_
    elif k == 'none':
        if c.kind != 'comments':
            return False
        call, m2 = (lambda: setattr(v, 'value', None)), []
    elif k == 'reverse':
        objs = v.value
        call = lambda: setattr(v, 'value', list(reversed(objs)))
        m2 = list(reversed(m))
    else:
        raise ValueError(op)
    c._popped = popped
    try:
        call()
    except Violation:
        raise
    except Exception as e:
        if not reject:
            raise
        out = 'refused'
    else:
        if reject:
            raise Violation('%r on %r was accepted' % (op, [t for _, t in m]))
        out = 'done'
        c.popped = c._popped
        c.model = m2
    return out


def pick(c):
    for o, t in c.model:
        if o is not None:
            return o
    for o in c.coll:
        return o
    return None


Ctx.pick = pick


def observe(c, why):
    v = c.coll
    want = [t for _, t in c.model]
    got = [c.tag(o) for o in v]
    n = len(want)
    if got != want:
        raise Violation('%s: iteration gives %r, a list gives %r' % (why, got, want))
    if len(v) != n:
        raise Violation('%s: len %d, a list has %d' % (why, len(v), n))
    if [c.tag(o) for o in v.value] != want:
        raise Violation('%s: value differs from a list %r' % (why, want))
    for i in idxs(n):
        if -n <= i < n:
            for how, o in (('[]', v[i]), ('get', v.get(i))):
                if c.tag(o) != want[i]:
                    raise Violation('%s: %s %d gives %r, a list %r gives %r' % (why, how, i, c.tag(o), want, want[i]))
                if c.model[i][0] is not None and o is not c.model[i][0]:
                    raise Violation('%s: %s %d gives another object' % (why, how, i))
                c.model[i] = (o, want[i])
        else:
            try:
                o = v[i]
            except IndexError:
                pass
            else:
                raise Violation('%s: [%d] of %d elements gives %r' % (why, i, n, c.tag(o)))
            if v.get(i, 'absent') != 'absent':
                raise Violation('%s: get(%d) of %d elements finds something' % (why, i, n))
    for o, t in c.model:
        if o not in v:
            raise Violation('%s: member %r is not "in"' % (why, t))
    if c.popped is not None and c.popped[0] in v:
        raise Violation('%s: popped object is still "in"' % why)


def run_histories(hists, tally):
    """hists: [kind, where, start count, phase 1 word, phase 2 word or None]"""
    path = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
    foreign = _foreign()
    f = aaf2.open(path, 'r+')
    ctx = []
    try:
        for i, h in enumerate(hists):
            kind, where, n0, w1, w2 = h
            c = Ctx(f, i, kind, where)
            c.hist = h
            ctx.append(c)
            for _ in range(n0):
                one(c, ['append'], foreign, tally)
        if any(h[1] == 'loaded' for h in hists):
            f.close()
            f = aaf2.open(path, 'r+')
            for c in ctx:
                c.rebind(f)
        for c in ctx:
            for op in c.hist[3]:
                one(c, op, foreign, tally)
            if c.where == 'unattached':      # attach it now: must come through whole
                f.content.mobs.append(c.mob)
                c.where = 'attached'
                guard(c, lambda: observe(c, 'after attaching'))
        two = any(h[4] is not None for h in hists)
        if two:
            f.close()
            check_stored(path, ctx)
            f = aaf2.open(path, 'r+')
            for c in ctx:
                c.rebind(f)
                guard(c, lambda: observe(c, 'after reopen'))
                for op in c.hist[4] or []:
                    one(c, op, foreign, tally)
        f.close()
        check_stored(path, ctx)
        f = aaf2.open(path, 'r')
        for c in ctx:
            c.rebind(f)
            guard(c, lambda: observe(c, 'after reopen'))
    finally:
        try:
            f.f.close()
        except Exception:
            pass
        if os.path.exists(path):
            os.unlink(path)


def guard(c, fn):
    try:
        return fn()
    except Violation as e:
        raise Violation(e.msg, e.sig, case=[c.hist])
    except Exception as e:
        from lib.mc import exc_site, tb_tail
        raise Violation('unexpected %s: %s [%s]' % (type(e).__name__, e, tb_tail(e)), 'exc:%s@%s' % (type(e).__name__, exc_site(e)), case=[c.hist])


def one(c, op, foreign, tally):
    def go():
        if op[0] == 'save':
            if c.where == 'unattached':
                return
            c.f.save()
            c.f.manager.lru_cache = LRUCacheDict(4)
            c.forget()
            c.remember()
            out = 'saved'
        else:
            out = step(c, op, foreign)
            if out is False:
                return
        observe(c, 'after %r' % (op,))
        tally.step()
        tally.state((c.kind, c.where, [t for _, t in c.model], c.popped is not None))
        tally.outcome('%s %s' % (op[0], out))
    guard(c, go)


def check_stored(path, ctx):
    a = aafrig.load(path, skip=(1,))
    mobs = a.root[1][2][1][1][0x3b03][1][1][0x1901][1]
    for c in ctx:
        m = mobs.get(bytes(c.id.bytes_le))
        want = [t for _, t in c.model]

        def go():
            if m is None:
                raise Violation('the mob is not in the stored file')
            if c.kind == 'components':
                slot = m[1][0x4403][1][0]
                seq = slot[1][0x4803][1]
                v = seq[1].get(0x1001, ('V', ()))[1]
                got = [int.from_bytes(o[1][0x0202][1], 'little') for o in v]
            elif c.kind == 'slots':
                v = m[1].get(0x4403, ('V', ()))[1]
                got = [int.from_bytes(o[1][0x4801][1], 'little') for o in v]
            else:
                v = m[1].get(0x4406, ('V', ()))[1]
                got = [int.from_bytes(o[1][0x5003][1][17:], 'little') for o in v]
            if got != want:
                raise Violation('stored order is %r, the list was %r' % (got, want))
        guard(c, go)


_f = []


def _foreign():
    if not _f:
        _f.append(aaf2.open())
    return _f[0]


def alphabet(small=False):
    ops = [['append'], ['reappend'], ['pop', 0], ['pop', -1], ['pop', 1], ['insert', 0], ['insert', 1], ['insert', -1],
           ['set', 0], ['set', -1], ['clear'], ['extend', 2, 'list'], ['value', 2, 'list'], ['reverse'], ['save']]
    if small:
        return ops
    return ops + [['insert', -5], ['insert', 9], ['insert', -2], ['reinsert', 0], ['reinsert', 1], ['set', 1], ['set', -2], ['set', -9], ['set', 9],
                  ['pop', -2], ['pop', -9], ['pop', 9], ['extend', 0, 'list'], ['extend', 1, 'tuple'], ['extend', 2, 'gen'],
                  ['value', 0, 'list'], ['value', 1, 'gen'], ['none'],
                  ['dup', 'append'], ['dup', 'insert'], ['dup', 'set'], ['dup', 'extend'], ['dup', 'value'],
                  ['bad', 'append', 'class'], ['bad', 'insert', 'class'], ['bad', 'set', 'class'], ['bad', 'extend', 'class'], ['bad', 'value', 'class'],
                  ['bad', 'append', 'file'], ['bad', 'insert', 'file'], ['bad', 'set', 'file'], ['bad', 'extend', 'file'], ['bad', 'value', 'file']]


def spaces(tier):
    T = tier == 'thorough'
    full, small = alphabet(), alphabet(True)

    def pairs():
        for where in ('attached', 'unattached', 'loaded'):
            for kind in ('components', 'comments', 'slots'):
                for n0 in (0, 1, 3):
                    for w in words(full, 2, 1):
                        yield [kind, where, n0, w, None]

    def deep():
        for where in ('attached', 'unattached', 'loaded'):
            for kind in ('components', 'slots') if T else ('components',):
                for w in words(small, 4 if T else 3, 3):
                    yield [kind, where, 2, w, None]

    def split():
        for w1 in words(small, 2 if T else 1, 1):
            for w2 in words(full if T else small, 2, 1):
                yield ['components', 'attached', 2, w1, w2]
    def grouped(it, n=60):
        def g():
            last, batch = None, []
            for h in it():
                if batch and (h[1] != last or len(batch) >= n):
                    yield batch
                    batch = []
                last = h[1]
                batch.append(h)
            if batch:
                yield batch
        return g
    return [Space('pairs', grouped(pairs), run_histories, 'every word of length 1-2 over %d operations x 3 collections x 3 contexts x 3 start sizes (cases hold 60 words)' % len(full)),
            Space('deep', grouped(deep), run_histories, 'every word of length %d over %d operations' % (4 if T else 3, len(small))),
            Space('sessions', grouped(split), run_histories, 'every split of short words over two sessions')]
