"""C12: keyed object collections behave like maps on the objects' unique ids.

Every word over the whole interface of a keyed collection (add fresh, add
another object with a key already present, re-add, offer attached or foreign
objects, pop, clear, whole-value assignment from list, dict, generator, change
of a member's id to a free or a taken one, save with caches dropped) runs next
to a dict; after each operation len, keys, items, lookup, membership and
identity are compared, and the stored collection after close."""
import os
import aaf2
from aaf2.auid import AUID
from aaf2.mobid import MobID
from aaf2.cache import LRUCacheDict
from lib import aafrig, aafref, util
from lib.mc import Space, Violation, words, chunks, exc_site, tb_tail

LEVEL = 'model_checking'
ASSUMPTIONS = ['keyed collections of the standard model with 32-byte ids (mobs, essence data) and 16-byte ids (definitions, effect parameters)',
               'ids are changed through the owning object while it is attached, or through the collection; ids of definitions and parameters are changed only through the collection']


def mid(i):
    m = MobID(int=0x060a2b340101010501010f2013000000 << 128 | 0xabc000 + i)
    return m


def aid(i):
    return AUID(int=0x0d0102030405060708090a0b0c000000 + i)


class Kind(object):
    """how to make, key and tag members of one kind of keyed collection"""


class Mobs(Kind):
    name = 'mobs'
    key = staticmethod(mid)
    rekey = True
    own_file = True      # there is one such collection per file

    @staticmethod
    def coll(f, st):
        return f.content.mobs

    @staticmethod
    def make(f, st, k, t):
        o = f.create.CompositionMob('t%d' % t) if t % 2 else f.create.MasterMob('t%d' % t)
        o.mob_id = mid(k)
        return o

    @staticmethod
    def tag(o):
        return int(o.name[1:])

    @staticmethod
    def getkey(o):
        return o.mob_id

    @staticmethod
    def setkey(o, k):
        o.mob_id = k

    @staticmethod
    def stored(root):
        return root[1][2][1][1][0x3b03][1][1].get(0x1901, ('T', {}))[1]

    @staticmethod
    def stored_tag(o):
        return int(aafref.u16z(o[1][0x4402][1])[1:])


class Essence(Mobs):
    name = 'essence'

    @staticmethod
    def coll(f, st):
        return f.content.essencedata

    @staticmethod
    def make(f, st, k, t):
        o = f.create.EssenceData()
        o.mob_id = mid(k)
        s = o.open('w')
        s.write(b'%d' % t)
        return o

    @staticmethod
    def tag(o):
        s = o.open('r')
        s.seek(0)
        return int(s.read())

    @staticmethod
    def stored(root):
        return root[1][2][1][1][0x3b03][1][1].get(0x1902, ('T', {}))[1]

    @staticmethod
    def stored_tag(o):
        return int(o[1][0x2702][1])


class Defs(Kind):
    name = 'defs'
    key = staticmethod(aid)
    rekey = False
    own_file = True

    @staticmethod
    def coll(f, st):
        return f.dictionary['ParameterDefinitions']

    @staticmethod
    def make(f, st, k, t):
        return f.create.ParameterDef(aid(k), 't%d' % t, '', 'Rational')

    @staticmethod
    def tag(o):
        return int(o.name[1:])

    @staticmethod
    def getkey(o):
        return o.auid

    @staticmethod
    def setkey(o, k):
        o.auid = k

    @staticmethod
    def stored(root):
        return root[1][2][1][1][0x3b04][1][1].get(0x2604, ('T', {}))[1]

    @staticmethod
    def stored_tag(o):
        return int(aafref.u16z(o[1][0x1b02][1])[1:])


class Params(Kind):
    """parameters of an effect"""
    name = 'params'
    key = staticmethod(aid)
    rekey = False
    own_file = True

    @staticmethod
    def coll(f, st):
        m = f.content.mobs.get(mid(900))
        if m is None:
            for i in range(8):
                f.dictionary.register_def(f.create.ParameterDef(aid(i), 'p%d' % i, '', 'Rational'))
            od = f.create.OperationDef(aid(100), 'op', '')
            od.media_kind = 'picture'
            od['NumberInputs'].value = 1
            od['Bypass'].value = 1
            od['OperationCategory'].value = 'OperationCategory_Effect'
            f.dictionary.register_def(od)
            m = f.create.CompositionMob('x')
            m.mob_id = mid(900)
            f.content.mobs.append(m)
            s = m.create_timeline_slot(25)
            s.segment = f.create.OperationGroup('op', 5)
        return list(m.slots)[0].segment.parameters

    @staticmethod
    def make(f, st, k, t):
        return f.create.ConstantValue(aid(k), t)

    @staticmethod
    def tag(o):
        return int(o.value)

    @staticmethod
    def getkey(o):
        return o.auid

    @staticmethod
    def setkey(o, k):
        o.auid = k

    @staticmethod
    def stored(root):
        m = root[1][2][1][1][0x3b03][1][1][0x1901][1][bytes(mid(900).bytes_le)]
        return m[1][0x4403][1][0][1][0x4803][1][1].get(0x0b03, ('T', {}))[1]

    @staticmethod
    def stored_tag(o):
        import struct
        n, d = struct.unpack('<ii', o[1][0x4d01][1][17:25])
        return n // d


KINDS = {k.name: k for k in (Mobs, Essence, Defs, Params)}


class State(object):
    def __init__(self, f, K):
        self.f, self.K = f, K
        self.n = 0
        self.model = {}      # key index -> (obj or None, tag)
        self.popped = None   # (obj, tag, key index)

    def forget(self):
        self.model = {k: (None, t) for k, (o, t) in self.model.items()}
        self.popped = None

    def make(self, k):
        self.n += 1
        return (self.K.make(self.f, self, k, self.n), self.n)


NK = 3


def step(s, op, foreign):
    K = s.K
    v = K.coll(s.f, s)
    m = dict(s.model)
    k = op[0]
    reject = False
    if k == 'add':
        o = s.make(op[1])
        call, m[op[1]] = (lambda: v.append(o[0])), o
    elif k == 'extend':
        os_ = [(i, s.make(i)) for i in op[1]]
        objs = [o[0] for _, o in os_]
        arg = objs if op[2] == 'list' else (x for x in objs)
        call = lambda: v.extend(arg)
        for i, o in os_:
            m[i] = o
    elif k == 'readd':
        if s.popped is None:
            return False
        o, t, i = s.popped
        m[i] = (o, t)
        s.popped = None
        call = lambda: v.append(o)
    elif k == 'dup':
        o = s.member(op[1])
        if o is None:
            return False
        call, reject = (lambda: v.append(o)), True
    elif k == 'bad':
        good = s.make(op[2])[0]
        bad = s.f.create.Filler() if op[1] == 'class' else foreign[K.name](op[2])
        how = op[3]
        call = (lambda: v.append(bad)) if how == 'append' else (lambda: v.extend([good, bad])) if how == 'extend' else (lambda: setattr(v, 'value', [good, bad]))
        reject = True
    elif k == 'pop':
        if op[1] not in m:
            reject = True
            call = lambda: v.pop(K.key(op[1]))
        else:
            o, t = m.pop(op[1])

            def call():
                r = v.pop(K.key(op[1]))
                if (o is not None and r is not o) or K.tag(r) != t:
                    raise Violation('pop gave another object (%r, expected %r)' % (K.tag(r), t))
                s.popped = (r, t, op[1])
    elif k == 'clear':
        call, m = v.clear, {}
    elif k == 'value':
        os_ = [(i, s.make(i)) for i in op[1]]
        objs = [o[0] for _, o in os_]
        arg = objs if op[2] == 'list' else {K.key(i): o[0] for i, o in os_} if op[2] == 'dict' else (x for x in objs)
        call = lambda: setattr(v, 'value', arg)
        m = {}
        for i, o in os_:
            m[i] = o
    elif k == 'same':
        objs = v.value
        call = lambda: setattr(v, 'value', objs)
    elif k == 'rekey':
        if op[1] not in m:
            return False
        o = s.member(op[1])
        if op[2] in m and op[2] != op[1]:
            reject = True
        elif op[2] != op[1]:
            t = m.pop(op[1])
            m[op[2]] = (o, t[1])
        call = lambda: K.setkey(o, K.key(op[2]))
    elif k == 'swap':
        # the collection's own way of changing a member's id
        if op[1] not in m or (op[2] in m and op[2] != op[1]):
            reject = True
        elif op[2] != op[1]:
            t = m.pop(op[1])
            m[op[2]] = t
        call = lambda: v.swap_unique_key(K.key(op[1]), K.key(op[2]))
    elif k == 'badkey':
        if op[1] not in m:
            return False
        o = s.member(op[1])
        call, reject = (lambda: K.setkey(o, {'none': None, 'text': 'xyz', 'int': 5}[op[2]])), True
    else:
        raise ValueError(op)
    try:
        call()
    except Violation:
        raise
    except Exception:
        if not reject:
            raise
        return 'refused'
    if reject:
        raise Violation('%r on keys %r was accepted' % (op, sorted(s.model)))
    s.model = m
    return 'done'


def member(s, i):
    o = s.model.get(i, (None, 0))
    if i not in s.model:
        return None
    if o[0] is not None:
        return o[0]
    return s.K.coll(s.f, s).get(s.K.key(i))


State.member = member


def observe(s, why):
    K = s.K
    v = K.coll(s.f, s)
    want = {K.key(i): t for i, (o, t) in s.model.items()}
    if len(v) != len(want):
        raise Violation('%s: len %d, a map has %d' % (why, len(v), len(want)))
    items = list(v.items())
    got = {k: K.tag(o) for k, o in items}
    if len(items) != len(got) or got != want:
        raise Violation('%s: items are %r, a map has %r' % (why, sorted(map(str, got.items())), sorted(map(str, want.items()))))
    if sorted(K.tag(o) for o in v) != sorted(want.values()) or sorted(K.tag(o) for o in v.values()) != sorted(want.values()):
        raise Violation('%s: iteration gives other members' % why)
    if sorted(K.tag(o) for o in v.value) != sorted(want.values()):
        raise Violation('%s: value differs' % why)
    for k, o in items:
        if K.getkey(o) != k:
            raise Violation('%s: stored under %s but its id is %s' % (why, k, K.getkey(o)))
    for i in range(NK + 1):
        key = K.key(i)
        if (key in v) != (i in s.model):
            raise Violation('%s: membership of key %d is %r' % (why, i, key in v))
        if i in s.model:
            o = v[key]
            if K.tag(o) != s.model[i][1] or v.get(key) is not o:
                raise Violation('%s: lookup of key %d gives %r, expected %r' % (why, i, K.tag(o), s.model[i][1]))
            if s.model[i][0] is not None and s.model[i][0] is not o:
                raise Violation('%s: lookup of key %d gives another object' % (why, i))
            s.model[i] = (o, s.model[i][1])
        else:
            if v.get(key, 'no') != 'no':
                raise Violation('%s: get of absent key %d gives something' % (why, i))
            try:
                v[key]
            except KeyError:
                pass
            else:
                raise Violation('%s: [] of absent key %d gives something' % (why, i))
    if s.popped is not None and K.tag(s.popped[0]) != s.popped[1]:
        raise Violation('%s: removed object changed' % why)


_img = {}


def start_image(K, n0):
    """file with n0 members, per process"""
    if (K.name, n0) not in _img:
        p = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
        f = aaf2.open(p, 'r+')
        s = State(f, K)
        v = K.coll(f, s)
        for i in range(n0):
            v.append(s.make(i)[0])
        f.close()
        _img[K.name, n0] = aafrig.readfile(p)
        os.unlink(p)
    return _img[K.name, n0]


_foreign = {}


def foreign():
    if not _foreign:
        f = aaf2.open()
        for n, K in KINDS.items():
            st = State(f, K)
            if n == 'params':
                K.coll(f, st)
            _foreign[n] = (lambda K, st: lambda k: K.make(f, st, k, 77))(K, st)
    return _foreign


def run(case, tally):
    """one session per prefix: [kind, n0, [word, ...]] -- the words share a file, each starts by restoring the start members"""
    kind, n0, ws = case
    K = KINDS[kind]
    path = aafrig.writefile(aafrig.newpath(), start_image(K, n0))
    f = aaf2.open(path, 'r+')
    try:
        s = State(f, K)
        s.n = n0
        s.model = {i: (None, i + 1) for i in range(n0)}
        for wi, w in enumerate(ws):
            def fail(msg, sig=None):
                raise Violation(msg, sig, case=[kind, n0, ws[:wi + 1]])
            if wi:
                if w[0] == 'R':
                    f.close()
                    compare(path, s)
                    f = aaf2.open(path, 'r+')
                    s.f = f
                    s.forget()
                    w = w[1]
                else:
                    # back to n0 members
                    v = K.coll(f, s)
                    v.value = [s.make(i)[0] for i in range(n0)]
                    s.model = {K_i: (None, None) for K_i in range(n0)}
                    s.model = {i: (v[K.key(i)], K.tag(v[K.key(i)])) for i in range(n0)}
                    s.popped = None
            for op in w:
                try:
                    if op[0] == 'save':
                        f.save()
                        f.manager.lru_cache = LRUCacheDict(4)
                        s.forget()
                        out = 'saved'
                    else:
                        out = step(s, op, foreign())
                    if out is False:
                        continue
                    observe(s, 'after %r' % (op,))
                except Violation as e:
                    fail(e.msg, e.sig)
                except Exception as e:
                    fail('unexpected %s: %s [%s]' % (type(e).__name__, e, tb_tail(e)), 'exc:%s@%s' % (type(e).__name__, exc_site(e)))
                tally.step()
                tally.state((kind, sorted((i, t % 7) for i, (o, t) in s.model.items()), s.popped is not None))
                tally.outcome('%s %s' % (op[0], out))
            tally.count('words')
        f.close()
        compare(path, s)
        f = aaf2.open(path, 'r')
        s.f = f
        s.forget()
        observe(s, 'after reopen')
    finally:
        try:
            f.f.close()
        except Exception:
            pass
        os.unlink(path)


def compare(path, s):
    K = s.K
    a = aafrig.load(path)
    got = {k: K.stored_tag(o) for k, o in K.stored(a.root).items()}
    want = {bytes(K.key(i).bytes_le): t for i, (o, t) in s.model.items()}
    if got != want:
        raise Violation('stored members %r, the map had %r' % (sorted(got.values()), sorted(want.values())))


def alphabet(K):
    ops = [['add', 0], ['add', 1], ['readd'], ['pop', 0], ['pop', 1], ['clear'], ['extend', [0, 2], 'list'], ['value', [1, 2], 'list'], ['save']]
    more = [['extend', [], 'list'], ['extend', [1, 2], 'gen'], ['extend', [2, 2], 'list'], ['add', 2], ['pop', 2],
            ['value', [], 'list'], ['value', [0, 1], 'dict'], ['value', [0, 2], 'gen'], ['value', [1, 1], 'list'], ['same'], ['dup', 0], ['dup', 1],
            ['bad', 'class', 0, 'append'], ['bad', 'class', 2, 'extend'], ['bad', 'class', 1, 'value'],
            ['bad', 'file', 0, 'append'], ['bad', 'file', 2, 'extend'], ['bad', 'file', 1, 'value']]
    more += [['swap', 0, 2], ['swap', 1, 0], ['swap', 2, 2]]
    if K.rekey:
        ops += [['rekey', 0, 2], ['rekey', 0, 1]]
        more += [['rekey', 1, 2], ['rekey', 0, 0], ['badkey', 0, 'none'], ['badkey', 0, 'text'], ['badkey', 1, 'int']]
    else:
        more += [['badkey', 0, 'none'], ['badkey', 0, 'text']]
    return ops, ops + more


def spaces(tier):
    T = tier == 'thorough'

    def pairs():
        for K in KINDS.values():
            small, full = alphabet(K)
            for n0 in (0, 2, 3):
                for b in chunks(words(full, 3 if T else 2, 1), 60 if T else 40):
                    yield [K.name, n0, b]

    def deep():
        for K in KINDS.values():
            small, full = alphabet(K)
            for n0 in (2,):
                for b in chunks(words(small, 4 if T else 3, 3), 60):
                    yield [K.name, n0, b]

    def sessions():
        for K in KINDS.values():
            small, full = alphabet(K)
            for b in chunks(((w, w2) for w in full for w2 in (words(small, 2, 1) if T else [[o] for o in small])), 12):
                yield [K.name, 2, [x for w, w2 in b for x in ([w], ['R', w2])]]
    return [Space('pairs', pairs, run, 'every word of length 1-2 over the full interface x 4 kinds x 3 start sizes; words share a session, each starting from freshly assigned members'),
            Space('deep', deep, run, 'every word of length %d over the core operations' % (4 if T else 3)),
            Space('sessions', sessions, run, 'every operation, close and reopen, every core operation')]
