"""C28: comments and tagged values behave like an ordered name-to-value map.

Every word of set, append, read, test and list operations over a few names and values
(storable and not) runs on a real map of a real file next to an ordered dictionary, with
the file closed and reopened after every prefix; at the end the map is read live, from the
file opened for reading, and from its bytes by an independent reader.  Every name is also
paired with every value, overwritten by every other value, for each place that keeps tagged
values, in objects in and not yet in a file."""
import os, struct
import aaf2
from aaf2.misc import TaggedValueHelper
from aaf2.rational import AAFRational
from fractions import Fraction
from lib import aafref, aafrig, util
from lib.mc import Space, Violation, words, chunks, exc_site, tb_tail

LEVEL = 'model_checking'
ASSUMPTIONS = ['names are text; tags are added with set or append and not taken out', 'a value the file cannot hold must be refused with an error']

STR, INT, RAT = (bytes.fromhex(x) for x in ('0002100100000000060e2b3401040101', '0007010100000000060e2b3401040101', '0001010300000000060e2b3401040101'))


class Bad(object):
    def __init__(self, v):
        self.v = v


VALUES = {
    't': 'text', 'e': '', 'u': 'é \U0001F600 漢', 'l': 'long ' * 3000, 'h': '1/2', 'd': '17',
    '0': 0, '1': 1, 'm': -1, 'M': 2 ** 31 - 1, 'N': -2 ** 31, 'T': True,
    'r': AAFRational(2, 4), 'z': AAFRational(0, 0), 'w': AAFRational(-2 ** 31, 1), 'i': AAFRational(5, 1),
    'X': Bad(2 ** 31), 'Y': Bad(-2 ** 31 - 1), 'F': Bad(1.5), 'O': Bad(None), 'B': Bad(b'bytes'), 'L': Bad([1]), 'D': Bad({'a': 1}), 'R': Bad(AAFRational(2 ** 31, 1)), 'C': Bad(1j),
}
NAMES = {'a': 'a', 'b': 'b', 'A': 'A', 'e': '', 'u': 'é\U0001F600', 'l': 'name ' * 200, 's': 'a ', 'x': '_ATN_CRM_COMMENT'}
BADNAMES = {'N': None, '5': 5, 'y': b'a', 't': ('a',)}


def owners():
    return ['mob', 'clip', 'mob attributes', 'tag']


class Rig(object):
    """maps in one file"""
    def __init__(self, n, owner, detached=False):
        self.path = aafrig.newpath()
        self.f = aaf2.open(self.path, 'w')
        self.owner = owner
        self.objs = []
        self.ids = []
        for i in range(n):
            m = self.f.create.SourceMob('m%d' % i)
            m.descriptor = self.f.create.TapeDescriptor()
            slot = m.create_empty_sequence_slot(25)
            self.ids.append(m.mob_id)
            self.objs.append(m)
            if not detached:
                self.f.content.mobs.append(m)
        self.detached = detached
        self.helpers = {}

    def map(self, i):
        # a new one for the first, the same for the others
        if i % 2 and i in self.helpers:
            return self.helpers[i]
        m = self.objs[i]
        if self.owner == 'mob':
            h = m.comments
        elif self.owner == 'clip':
            h = TaggedValueHelper(m.slot_at(1).segment['UserComments'])
        elif self.owner == 'mob attributes':
            h = TaggedValueHelper(m['Attributes'])
        else:
            if len(m['UserComments']) == 0:
                m.comments['tagged'] = 1
            h = TaggedValueHelper(m.comments.get('tagged')['TaggedValueAttributeList'])
        self.helpers[i] = h
        return h

    def attach(self):
        if self.detached:
            for m in self.objs:
                self.f.content.mobs.append(m)
            self.detached = False

    def reopen(self, mode):
        self.attach()
        try:
            self.f.close()
        except Exception as e:
            raise Violation('saving: %s: %s [%s]' % (type(e).__name__, e, tb_tail(e)), exc_site(e))
        self.f = aaf2.open(self.path, mode)
        self.objs = [self.f.content.mobs[i] for i in self.ids]
        self.helpers = {}

    def close(self):
        try:
            self.f.close()
        finally:
            os.unlink(self.path)


def same(a, b):
    if isinstance(b, Fraction):
        return isinstance(a, Fraction) and (a.numerator, a.denominator) == (b.numerator, b.denominator)
    return a == b and isinstance(a, str) == isinstance(b, str) and not isinstance(a, Fraction)


def verify(h, model, what):
    try:
        got = list(h.items())
    except Exception as e:
        raise Violation('%s: items(): %s: %s [%s]' % (what, type(e).__name__, e, tb_tail(e)), exc_site(e))
    if len(got) != len(model) or any(g[0] != k or not same(g[1], v) for g, (k, v) in zip(got, model.items())):
        raise Violation('%s: items() gives %s, should be %s' % (what, str(got)[:300], str(list(model.items()))[:300]), 'items')
    for k, v in model.items():
        if k not in h or not same(h[k], v):
            raise Violation('%s: %r not found or wrong' % (what, k), 'get')
        if h.get(k).name != k or not same(h.get(k).value, v):
            raise Violation('%s: get(%r) gives %r' % (what, k, h.get(k)), 'get')


def apply(rig, i, h, model, op, t, what):
    kind = op[0]
    if kind == 'S':
        k, v = op[1], op[2]
        name = NAMES.get(k, BADNAMES.get(k))
        bad = k in BADNAMES or isinstance(VALUES[v], Bad)
        val = VALUES[v].v if isinstance(VALUES[v], Bad) else VALUES[v]
        try:
            h[name] = val
        except Exception as e:
            t.outcome('refused ' + type(e).__name__)
            if not bad:
                raise Violation('%s: setting %r to %s: %s: %s' % (what, name, str(val)[:60], type(e).__name__, e), exc_site(e))
        else:
            t.outcome('set')
            if bad:
                raise Violation('%s: setting %r to %r is accepted' % (what, name, val), 'accepts')
            model[name] = val
    elif kind == 'P':
        # append a tag
        k, v = op[1], op[2]
        tag = rig.f.create.TaggedValue(NAMES[k], VALUES[v])
        h.append(tag)
        model[NAMES[k]] = VALUES[v]
    elif kind == 'Y':
        # through the tag itself
        tag = h.get(NAMES[op[1]])
        if (tag is None) != (NAMES[op[1]] not in model):
            raise Violation('%s: get(%r) gives %r' % (what, NAMES[op[1]], tag), 'get')
        if tag is not None:
            tag.value = VALUES[op[2]]
            model[NAMES[op[1]]] = VALUES[op[2]]
    elif kind == 'G':
        name = NAMES.get(op[1], BADNAMES.get(op[1]))
        try:
            got = h[name]
        except LookupError:
            t.outcome('not found')
            if name in model:
                raise Violation('%s: reading %r: not found' % (what, name), 'get')
        else:
            t.outcome('found')
            if name not in model or not same(got, model[name]):
                raise Violation('%s: reading %r gives %s' % (what, name, str(got)[:100]), 'get')
    elif kind == 'C':
        name = NAMES.get(op[1], BADNAMES.get(op[1]))
        if (name in h) != (name in model) or (h.get(name, 7) == 7) != (name not in model) or (h.get(name) is None) != (name not in model):
            raise Violation('%s: %r tested as %s' % (what, name, name in h), 'contains')
    t.step()


def applicable(model, op):
    return not (op[0] == 'P' and NAMES[op[1]] in model)


def stored(rig, models, cases, pid):
    """independent reading of the closed file"""
    a = aafrig.load(rig.path)
    mobs = a.root[1][2][1][1][0x3b03][1][1][0x1901][1]
    for mid, model, case in zip(rig.ids, models, cases):
        m = mobs[bytes(mid.bytes_le)][1]
        if rig.owner == 'mob':
            v = m.get(0x4406)
        elif rig.owner == 'mob attributes':
            v = m.get(0x4409)
        elif rig.owner == 'clip':
            seg = m[0x4403][1][0][1][0x4803][1]
            v = seg[1].get(0x0204)
        else:
            v = m[0x4406][1][0][1].get(pid) if 0x4406 in m else None
        got = []
        for tag in (v[1] if v else ()):
            p = tag[1]
            name = aafref.u16z(p[0x5001][1]) if 0x5001 in p else None
            d = p.get(0x5003, (0, b''))[1]
            ty, raw = d[1:17], d[17:]
            if d[:1] != b'\x4c':
                raise Violation('byte order mark of a stored value is %r' % d[:1], 'stored', case=case)
            if ty == INT:
                val = struct.unpack('<i', raw)[0]
            elif ty == RAT:
                n, dd = struct.unpack('<ii', raw)
                val = AAFRational(n, dd)
            elif ty == STR:
                val = aafref.u16z(raw)
            else:
                val = ('type', ty.hex())
            got.append((name, val))
        if len(got) != len(model) or any(g[0] != k or not same(g[1], v) for g, (k, v) in zip(got, model.items())):
            raise Violation('the file has %s, should be %s' % (str(got)[:300], str(list(model.items()))[:300]), 'stored', case=case)


def run_batch(case, t):
    """case: owner, detached, list of (ops, split)"""
    owner, detached, todo = case
    rig = Rig(len(todo), owner, detached)
    models = [{} for _ in todo]
    one = lambda i: [owner, detached, [todo[i]]]
    try:
        for phase in (0, 1):
            for i, (ops, split) in enumerate(todo):
                try:
                    h = rig.map(i)
                    for j, op in enumerate(ops[:split] if phase == 0 else ops[split:]):
                        if not applicable(models[i], op):
                            continue
                        what = '%s, %s after %s' % (owner, op, ops[:j + (split if phase else 0)])
                        apply(rig, i, h if j % 2 else rig.map(i), models[i], op, t, what)
                        verify(rig.map(i), models[i], what)
                    t.state(h64k(models[i]))
                except Violation as v:
                    v.case = v.case or one(i)
                    raise
                except Exception as e:
                    raise Violation('%s: %s: %s [%s]' % (owner, type(e).__name__, e, tb_tail(e)), exc_site(e), case=one(i))
            pid = rig.map(0).p.pid
            rig.reopen('r+' if phase == 0 else 'r')
            for i in range(len(todo)):
                try:
                    verify(rig.map(i), models[i], '%s, %s, reopened' % (owner, todo[i][0]))
                except Violation as v:
                    v.case = one(i)
                    raise
        stored(rig, models, [one(i) for i in range(len(todo))], pid)
    except Violation as v:
        if v.case is None and len(todo) > 1:
            # found when saving all of them: find the history
            for i in range(len(todo)):
                run_batch(one(i), t)
        raise
    finally:
        try:
            rig.close()
        except Exception:
            pass


def h64k(m):
    return tuple((k, str(v)[:20]) for k, v in m.items())


def histories(owner, detached, alphabet, depth, splits, size):
    def todo():
        for w in words(alphabet, depth, depth):
            for s in splits:
                yield [list(w), s]

    def cases():
        for c in chunks(todo(), size):
            yield [owner, detached, list(c)]
    return cases


def pairs(owner, detached):
    def todo():
        for k in list(NAMES) + list(BADNAMES):
            for v in VALUES:
                yield ['S' + k + v]
                if k in ('a', 'e'):
                    for v2 in VALUES:
                        yield ['S' + k + v, 'S' + k + v2]
        for k in BADNAMES:
            yield ['G' + k, 'C' + k, 'Sat', 'G' + k, 'C' + k]
        for k in NAMES:
            for k2 in NAMES:
                yield ['S' + k + 't', 'G' + k2, 'C' + k2, 'S' + k2 + '1', 'G' + k]

    def cases():
        for c in chunks(([w, s] for w in todo() for s in (1, ) if True), 60):
            yield [owner, detached, list(c)]
    return cases


SMALL = ['Sat', 'Sa1', 'SaF', 'Sbh', 'SbX', 'Ser', 'SeO', 'SNt', 'Ga', 'Cb', 'PA1', 'YbN']
TINY = ['Sat', 'Sa1', 'SaF', 'Sbr', 'SbX', 'PAt', 'Yaw', 'SNm']


def spaces(tier):
    full = tier != 'quick'
    out = []
    for owner in owners():
        for detached in ((False, True) if full or owner == 'mob' else (False,)):
            d = ', object not in the file yet' if detached else ''
            out.append(Space('names and values, %s%s' % (owner, d), pairs(owner, detached), run_batch, 'every name with every value, overwritten by every value', cpu_limit=600))
    out.append(Space('histories', histories('mob', False, SMALL, 3, (0, 1, 2), 120), run_batch, 'all words of 3 operations, reopened after every prefix', cpu_limit=600))
    out.append(Space('histories, object not in the file yet', histories('mob', True, TINY, 3, (1, 2), 120), run_batch, 'all words of 3 operations', cpu_limit=600))
    out.append(Space('histories, attributes of a tag', histories('tag', False, TINY, 3, (1, 2), 120), run_batch, 'all words of 3 operations', cpu_limit=600))
    if full:
        out.append(Space('longer histories', histories('mob', False, SMALL, 4, range(5), 200), run_batch, 'all words of 4 operations, reopened after every prefix', cpu_limit=900))
        out.append(Space('longest histories', histories('clip', False, TINY, 5, range(6), 200), run_batch, 'all words of 5 operations', cpu_limit=900))
    return out
