"""C13: an object and its storage have one owner; detach and attach move it whole.

Words over put / take / clear / edit / write-stream / save operations on a
small universe (two mobs, two slots, a sequence, two fillers, two essence
objects with a small and a large stream) run next to a forest model: what is
attached may not be put anywhere else, what was taken out keeps its values,
owned objects and stream data, and can be put anywhere again.  After every
operation all objects, attached or not, are read and their directory entries
checked; after close the independent reader compares the stored forest and
looks for leftovers."""
import os
import aaf2
from aaf2.cache import LRUCacheDict
from aaf2.mobid import MobID
from lib import aafrig, aafref, util
from lib.mc import Space, Violation, words, exc_site, tb_tail

LEVEL = 'model_checking'
ASSUMPTIONS = ['an unattached object is put into at most one unattached parent (except in the space "shared", where a second owner must be refused on attach)',
               'single references, lists and sets of owned objects of the standard model; streams of essence data']

NAMES = 'ABSTQFGXY'
PUTS = [('mobs', 'A'), ('mobs', 'B'), ('ess', 'X'), ('ess', 'Y')] + [('slots' + m, s) for m in 'AB' for s in 'ST'] + \
       [('seg' + s, g) for s in 'ST' for g in 'QFG'] + [('comps', g) for g in 'FG']
START = {'A': 'mobs', 'S': 'slotsA', 'Q': 'segS', 'F': 'comps', 'X': 'ess', 'B': None, 'T': None, 'G': None, 'Y': None}


def uid(i, c):
    return MobID(int=0x060a2b340101010501010f2013000000 << 128 | (i * 256 + ord(c)))


def owner_of(place):
    return {'slotsA': 'A', 'slotsB': 'B', 'segS': 'S', 'segT': 'T', 'comps': 'Q'}.get(place)


class Uni(object):
    def __init__(self, f, i):
        self.f, self.i = f, i
        self.place = dict(START)           # object -> place (None: loose)
        self.order = {'slotsA': ['S'], 'slotsB': [], 'comps': ['F']}
        self.val = {}
        self.obj = {}
        self.make()

    # -- construction
    def make(self):
        f, o = self.f, self.obj
        for m in 'AB':
            o[m] = f.create.CompositionMob(m)
            o[m].mob_id = uid(self.i, m)
            self.val[m] = m
        for s in 'ST':
            o[s] = f.create.TimelineMobSlot(ord(s), edit_rate=25)
            self.val[s] = ord(s)
        o['Q'] = f.create.Sequence(media_kind='picture')
        self.val['Q'] = 0
        for n, g in enumerate('FG'):
            o[g] = f.create.Filler(media_kind='picture', length=10 + n)
            self.val[g] = 10 + n
        for x in 'XY':
            e = o[x] = f.create.EssenceData()
            e.mob_id = uid(self.i, x)
            d = util.pat(ord(x), 30 if x == 'X' else 6000)
            s = e.open('w')
            s.write(d)
            self.val[x] = d
        f.content.mobs.append(o['A'])
        o['A'].slots.append(o['S'])
        o['S'].segment = o['Q']
        o['Q'].components.append(o['F'])
        f.content.essencedata.append(o['X'])

    # -- model
    def attached(self, c):
        p = self.place[c]
        if p in ('mobs', 'ess'):
            return True
        if p in (None, 'gone'):
            return False
        return self.attached(owner_of(p))

    def place_attached(self, place):
        return place in ('mobs', 'ess') or self.attached(owner_of(place))

    def content(self, place):
        if place in self.order:
            return self.order[place]
        return [c for c in NAMES if self.place[c] == place]

    def owned(self, c):
        return {'A': ['slotsA'], 'B': ['slotsB'], 'S': ['segS'], 'T': ['segT'], 'Q': ['comps']}.get(c, [])

    # -- live access: attached objects are always fetched from the file, so dropped caches matter
    def get(self, c):
        o = self.obj.get(c)
        if o is not None:
            return o
        p = self.place[c]
        if p == 'mobs':
            o = self.f.content.mobs[uid(self.i, c)]
        elif p == 'ess':
            o = self.f.content.essencedata[uid(self.i, c)]
        else:
            w = self.get(owner_of(p))
            o = w.segment if p.startswith('seg') else list(w.slots if p.startswith('slots') else w.components)[self.order[p].index(c)]
        self.obj[c] = o
        return o

    def forget(self):
        for c in NAMES:
            if self.attached(c):
                self.obj[c] = None

    def rebind(self, f):
        self.f = f
        loose = [c for c in NAMES if not self.attached(c)]
        self.obj = {c: None for c in NAMES}
        for c in loose:
            self.place[c] = 'gone'

    def coll(self, place):
        if place == 'mobs':
            return self.f.content.mobs
        if place == 'ess':
            return self.f.content.essencedata
        w = self.get(owner_of(place))
        return w.slots if place.startswith('slots') else w.components


def do_put(u, place, c, how):
    o = u.get(c)
    if place.startswith('seg'):
        if how == 'value':
            u.get(owner_of(place))['Segment'].value = o
        else:
            u.get(owner_of(place)).segment = o
    elif how == 'value':
        v = u.coll(place)
        v.value = list(v.value) + [o]
    elif how == 'insert':
        u.coll(place).insert(0, o)
    else:
        u.coll(place).append(o)


def step(u, op, foreign):
    """-> outcome or False when the operation does not apply"""
    k = op[0]
    if k == 'put':
        place, c = op[1], op[2]
        how = op[3] if len(op) > 3 else 'append'
        w = owner_of(place)
        if u.place[c] == 'gone' or (w and u.place[w] == 'gone'):
            return False
        dest = u.place_attached(place)
        same = place.startswith('seg') and u.place[c] == place
        if u.attached(c):
            reject = not same
        else:
            reject = False
            if u.place[c] is not None and not same:
                return False                 # second unattached owner: outside the assumption
        try:
            do_put(u, place, c, how)
        except Exception:
            if not reject:
                raise
            return 'refused'
        if reject:
            raise Violation('%s is attached at %r, yet putting it into %r was accepted' % (c, u.place[c], place))
        if same:
            return 'same'
        if place.startswith('seg'):
            for x in u.content(place):
                u.place[x] = None
        if place in u.order:
            u.order[place].insert(0 if how == 'insert' else len(u.order[place]), c)
        u.place[c] = place
        return 'put'
    if k == 'set':           # replace an element of a vector
        place, c, i = op[1], op[2], op[3]
        w = owner_of(place)
        if u.place[c] == 'gone' or u.place[w] == 'gone' or not u.order[place]:
            return False
        reject = u.attached(c)
        if not reject and u.place[c] is not None:
            return False
        old = u.order[place][i]
        u.get(old)
        try:
            u.coll(place)[i] = u.get(c)
        except Exception:
            if not reject:
                raise
            return 'refused'
        if reject:
            raise Violation('%s is attached at %r, yet replacing an element of %r by it was accepted' % (c, u.place[c], place))
        u.order[place][i] = c
        u.place[old] = None
        u.place[c] = place
        return 'set'
    if k == 'putx':          # object of another file
        place, c = op[1], op[2]
        w = owner_of(place)
        if w and u.place[w] == 'gone':
            return False
        keep = u.obj[c]
        try:
            u.obj[c] = foreign.get(c)
            do_put(u, place, c, 'append')
        except Exception:
            return 'refused'
        finally:
            u.obj[c] = keep
        raise Violation('%s of another file was accepted in %r' % (c, place))
    if k == 'take':
        place, c = op[1], op[2]
        if u.place[c] != place:
            return False
        how = op[3] if len(op) > 3 else 'pop'
        if place in ('mobs', 'ess'):
            r = u.coll(place).pop(uid(u.i, c))
        elif place.startswith('seg'):
            o = u.get(owner_of(place))
            r = u.get(c)
            if how == 'del':
                del o['Segment']
            else:
                o['Segment'].value = None
        else:
            r = u.coll(place).pop(u.order[place].index(c))
        if u.obj[c] is not None and r is not u.obj[c]:
            raise Violation('taking %s out of %r gave another object' % (c, place))
        u.obj[c] = r
        u.place[c] = None
        if place in u.order:
            u.order[place].remove(c)
        return 'taken'
    if k == 'clear':
        place = op[1]
        w = owner_of(place)
        if u.place[w] == 'gone':
            return False
        for c in u.content(place):
            u.get(c)
        o = u.get(w)
        if op[2] == 'clear':
            u.coll(place).clear()
        elif op[2] == 'del':
            name = 'Slots' if place.startswith('slots') else 'Components'
            if name not in o:
                return False
            del o[name]
        else:
            u.coll(place).value = []
        for c in u.content(place):
            u.place[c] = None
        u.order[place] = []
        return 'cleared'
    if k == 'edit':
        c = op[1]
        if u.place[c] == 'gone':
            return False
        o = u.get(c)
        if c in 'FG':
            u.val[c] += 100
            o.length = u.val[c]
        elif c in 'ST':
            u.val[c] += 100
            o.slot_id = u.val[c]
        elif c in 'AB':
            u.val[c] += 'x'
            o.name = u.val[c]
        else:
            n = u.i % 3
            d = [b'%d' % len(u.val[c]), u.val[c] + b'more', util.pat(7, 5000)][n]
            s = o.open('w')
            s.write(d)
            if hasattr(s, 'truncate'):
                s.truncate()
            u.val[c] = d
        return 'edited'
    if k == 'save':
        u.f.save()
        u.forget()
        u.f.manager.lru_cache = LRUCacheDict(2)
        return 'saved'
    raise ValueError(op)


def read_val(c, o):
    if c in 'AB':
        return o.name
    if c in 'ST':
        return o.slot_id
    if c == 'Q':
        return 0
    if c in 'FG':
        return o.length
    s = o.open('r')
    s.seek(0)
    return bytes(s.read())


def observe(u, why):
    dirs = {}
    for c in NAMES:
        if u.place[c] == 'gone':
            continue
        o = u.get(c)
        got = read_val(c, o)
        if got != u.val[c]:
            raise Violation('%s: %s (%s) has value %s, expected %s' % (why, c, 'attached' if u.attached(c) else 'loose', util.short(got), util.short(u.val[c])))
        if bool(o.dir) != u.attached(c):
            raise Violation('%s: %s is %s, expected %s' % (why, c, 'attached' if o.dir else 'loose', 'attached' if u.attached(c) else 'loose'))
        if o.dir:
            p = o.dir.path()
            if p in dirs:
                raise Violation('%s: %s and %s share the storage %s' % (why, c, dirs[p], p))
            dirs[p] = c
            if u.f.cfb.find(p) is None or u.f.cfb.find(p).dir_id != o.dir.dir_id:
                raise Violation('%s: storage of %s is not in the file at %s' % (why, c, p))
            if p.startswith('/tmp'):
                raise Violation('%s: attached %s is stored below %s' % (why, c, p))
            w = owner_of(u.place[c])
            if w and o.dir.parent.path() != u.get(w).dir.path():
                raise Violation('%s: storage of %s is not below that of its owner %s' % (why, c, w))
        for place in u.owned(c):
            want = u.content(place)
            if place.startswith('seg'):
                x = o['Segment'].value
                have = [] if x is None else [x]
            else:
                have = list(o['Slots' if place.startswith('slots') else 'Components'].value)
            if len(have) != len(want) or any(u.get(a) is not b for a, b in zip(want, have)):
                raise Violation('%s: %s owns %r, expected %r' % (why, c, [name_of(u, b) for b in have], want))
    for x, key in (('mobs', 'AB'), ('ess', 'XY')):
        for c in key:
            if (uid(u.i, c) in u.coll(x)) != (u.place[c] == x):
                raise Violation('%s: %s in %s is %r' % (why, c, x, u.place[c] != x))


def name_of(u, o):
    for c in NAMES:
        if u.obj.get(c) is o:
            return c
    return repr(o)


# ---------------------------------------------------------------- stored form

def stored(a, u):
    """expected canonical shape against the independently parsed file"""
    content = a.root[1][2][1][1][0x3b03][1][1]
    mobs = content.get(0x1901, ('T', {}))[1]
    ess = content.get(0x1902, ('T', {}))[1]
    for c in 'AB':
        k = bytes(uid(u.i, c).bytes_le)
        if (k in mobs) != (u.place[c] == 'mobs'):
            raise Violation('stored file %s %s' % ('has' if k in mobs else 'lacks', c))
        if k in mobs:
            shape(u, c, mobs[k])
    for c in 'XY':
        k = bytes(uid(u.i, c).bytes_le)
        if (k in ess) != (u.place[c] == 'ess'):
            raise Violation('stored file %s %s' % ('has' if k in ess else 'lacks', c))
        if k in ess:
            got = ess[k][1].get(0x2702)
            if got != ('S', u.val[c]):
                raise Violation('stored stream of %s is %s, expected %s' % (c, util.short(got), util.short(u.val[c])))


def shape(u, c, o):
    pid = {'A': 0x4402, 'B': 0x4402, 'S': 0x4801, 'T': 0x4801, 'F': 0x0202, 'G': 0x0202}.get(c)
    if pid:
        d = o[1].get(pid, ('D', b''))[1]
        got = aafref.u16z(d) if c in 'AB' else int.from_bytes(d, 'little')
        if got != u.val[c]:
            raise Violation('stored %s has value %r, expected %r' % (c, got, u.val[c]))
    for place in u.owned(c):
        want = u.content(place)
        pid = {'slotsA': 0x4403, 'slotsB': 0x4403, 'segS': 0x4803, 'segT': 0x4803, 'comps': 0x1001}[place]
        v = o[1].get(pid)
        have = [] if v is None else [v[1]] if v[0] == 'R' else list(v[1])
        if len(have) != len(want):
            raise Violation('stored %s owns %d objects, expected %r' % (c, len(have), want))
        for x, y in zip(want, have):
            shape(u, x, y)


_foreign = []


def foreign():
    if not _foreign:
        u = Uni(aaf2.open(), 0)
        _foreign.append(u)
    return _foreign[0]


def complete(u):
    """make the universe valid for saving: required properties present"""
    for c in 'ST':
        if u.attached(c) and not u.content('seg' + c):
            g = u.f.create.Filler(media_kind='picture', length=1)
            u.get(c).segment = g
    for m in 'AB':
        if u.attached(m) and 'Slots' not in u.get(m):
            u.get(m)['Slots'].value = []
    if u.attached('Q') and 'Components' not in u.get('Q'):
        u.get('Q')['Components'].value = []


def run(hists, tally):
    """hists: [[start, word], ...] in one file; start 'fresh' | 'loaded'"""
    path = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
    f = aaf2.open(path, 'r+')
    us = []
    cur = [None]
    try:
        for i, (start, w) in enumerate(hists):
            us.append(Uni(f, i))
        if hists[0][0] == 'loaded':
            for u in us:                       # keep everything reachable from the file
                f.content.mobs.append(u.obj['B'])
                f.content.essencedata.append(u.obj['Y'])
                u.obj['B'].slots.append(u.obj['T'])
                u.obj['T'].segment = u.obj['G']
                u.place.update(B='mobs', Y='ess', T='slotsB', G='segT')
                u.order['slotsB'] = ['T']
            f.close()
            f = aaf2.open(path, 'r+')
            for u in us:
                u.rebind(f)
        for u, h in zip(us, hists):
            cur[0] = h
            for op in h[1]:
                if op[0] == 'save':
                    for v in us:
                        cur[0] = h
                        complete_all(v)
                out = step(u, op, foreign())
                if out is False:
                    continue
                observe(u, 'after %r' % (op,))
                tally.step()
                tally.state((sorted(u.place.items(), key=str), u.order))
                tally.outcome('%s %s' % (op[0], out))
            complete_all(u)
        cur[0] = None
        f.close()
        if f.cfb.f is not None and not f.f.closed:
            raise Violation('file left open')
        a = aafrig.load(path, skip=(1,))
        for p in a.img.tree:
            if p == '/tmp' or p.startswith('/tmp/'):
                raise Violation('temporary storage %s remains in the closed file' % p)
        for u, h in zip(us, hists):
            cur[0] = h
            stored(a, u)
        f = aaf2.open(path, 'r')
        for u, h in zip(us, hists):
            cur[0] = h
            u.rebind(f)
            observe_complete(u)
    except Violation as e:
        raise Violation(e.msg, e.sig, case=[cur[0]] if cur[0] else None)
    except Exception as e:
        raise Violation('unexpected %s: %s [%s]' % (type(e).__name__, e, tb_tail(e)), 'exc:%s@%s' % (type(e).__name__, exc_site(e)), case=[cur[0]] if cur[0] else None)
    finally:
        try:
            f.f.close()
        except Exception:
            pass
        os.unlink(path)


FILL = 'e'


def complete_all(u):
    """a slot needs a segment and a mob its slots before the file can be saved; fill gaps and account for them in the model"""
    for c in 'ST':
        if u.place[c] != 'gone' and u.attached(c) and not u.content('seg' + c):
            n = 'FG'['T' == c]
            for g in (n, 'FG'['T' != c]):
                if u.place[g] is None:
                    u.get(c).segment = u.get(g)
                    u.place[g] = 'seg' + c
                    break
            else:
                # nothing free: take the slot out instead
                p = u.place[c]
                u.get(c)
                u.coll(p).pop(u.order[p].index(c))
                u.order[p].remove(c)
                u.place[c] = None
    for m in 'AB':
        if u.place[m] != 'gone' and u.attached(m) and 'Slots' not in u.get(m):
            u.get(m)['Slots'].value = []
    if u.place['Q'] != 'gone' and u.attached('Q') and 'Components' not in u.get('Q'):
        u.get('Q')['Components'].value = []


def observe_complete(u):
    observe(u, 'after reopen')


def run_shared(case, tally):
    """an object in two unattached parents: attaching the second one is refused and changes nothing"""
    first, second, kind = case
    path = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
    f = aaf2.open(path, 'r+')
    try:
        def parent(n, how):
            g = kid
            m = f.create.CompositionMob('p%d' % n)
            m.mob_id = uid(7, 'AB'[n])
            s = f.create.TimelineMobSlot(1, edit_rate=25)
            s['Segment'].value = f.create.Filler(media_kind='picture', length=1)
            if how == 'seg':
                s.segment = g
            elif how == 'comps':
                q = f.create.Sequence(media_kind='picture')
                q.components.append(f.create.Filler(media_kind='picture', length=2))
                q.components.append(g)
                s.segment = q
            elif how == 'twice':
                q = f.create.Sequence(media_kind='picture')
                q.components.append(g)
                q.components.append(g)
                s.segment = q
            elif how == 'slot':
                q = f.create.Sequence(media_kind='picture')
                s.segment = f.create.Filler(media_kind='picture', length=1)
                m.slots.append(s)
                s = f.create.TimelineMobSlot(2, edit_rate=25)
                s.segment = g
            m.slots.append(s)
            return m
        kid = f.create.Filler(media_kind='picture', length=5) if kind == 'leaf' else f.create.Sequence(media_kind='picture')
        if kind == 'tree':
            kid.components.append(f.create.Filler(media_kind='picture', length=6))
        a = parent(0, first)
        b = parent(1, second)
        refused = 0
        for m in (a, b):
            before = aafrig.canon(m)
            whole = aafrig.canon_file(f, skip=(1,))
            try:
                f.content.mobs.append(m)
            except Exception:
                refused += 1
                if m.dir or any(o.dir for o, _ in m.walk_references() if o is not kid and o.dir and o not in [x for x, _ in a.walk_references()]):
                    raise Violation('the refused object is partly attached')
                aafrig.same(aafrig.canon(m), before, 'refused object changed')
                aafrig.same(aafrig.canon_file(f, skip=(1,)), whole, 'refusing changed the file')
                tally.outcome('refused')
            else:
                aafrig.same(aafrig.canon(m), before, 'attached object changed')
                tally.outcome('attached')
            tally.step()
        n = (first == 'twice') + (second == 'twice' or first != 'twice')
        if refused != n:
            raise Violation('%d of 2 parents refused, expected %d' % (refused, n))
        want = aafrig.canon_file(f, skip=(1,))
        f.close()
        aafrig.same(aafrig.load(path, skip=(1,)).root, want, 'stored file')
    finally:
        try:
            f.f.close()
        except Exception:
            pass
        os.unlink(path)


def alphabet():
    a = [['put', p, c] for p, c in PUTS] + [['take', p, c] for p, c in PUTS]
    a += [['take', 'segS', 'Q', 'del'], ['put', 'segS', 'F', 'value'], ['put', 'slotsA', 'T', 'value'], ['put', 'comps', 'G', 'value']]
    a += [['clear', 'slotsA', 'clear'], ['clear', 'slotsA', 'del'], ['clear', 'comps', 'clear'], ['clear', 'comps', 'del'], ['clear', 'slotsB', 'value'], ['clear', 'comps', 'value']]
    a += [['set', 'slotsA', c, 0] for c in 'ST'] + [['set', 'comps', c, i] for c in 'FG' for i in (0, -1)] + [['put', 'comps', 'G', 'insert']]
    a += [['edit', c] for c in 'FSXY'] + [['save']]
    a += [['putx', 'mobs', 'B'], ['putx', 'ess', 'Y'], ['putx', 'slotsA', 'T'], ['putx', 'segS', 'G'], ['putx', 'comps', 'G']]
    return a


def small():
    return [['put', 'mobs', 'A'], ['put', 'slotsA', 'S'], ['put', 'slotsB', 'S'], ['put', 'segS', 'Q'], ['put', 'segS', 'F'], ['put', 'comps', 'F'], ['put', 'ess', 'X'],
            ['take', 'mobs', 'A'], ['take', 'slotsA', 'S'], ['take', 'segS', 'Q'], ['take', 'comps', 'F'], ['take', 'ess', 'X'],
            ['clear', 'slotsA', 'clear'], ['set', 'comps', 'G', 0], ['set', 'slotsA', 'T', -1], ['edit', 'F'], ['edit', 'X'], ['save']]


def useful(start, w):
    """words whose every operation applies (decided on the model alone) are kept, the rest would repeat shorter ones"""
    place = dict(START)
    if start == 'loaded':
        place.update(B='mobs', Y='ess', T='slotsB', G='segT')

    def att(c):
        p = place[c]
        return p in ('mobs', 'ess') or (p is not None and att(owner_of(p)))
    for op in w:
        if op[0] == 'put':
            if not att(op[2]) and place[op[2]] is not None and not (op[1].startswith('seg') and place[op[2]] == op[1]):
                return False
            if not att(op[2]) and not (op[1].startswith('seg') and place[op[2]] == op[1]):
                if op[1].startswith('seg'):
                    for x in place:
                        if place[x] == op[1]:
                            place[x] = None
                place[op[2]] = op[1]
        elif op[0] == 'set':
            if not att(op[2]) and place[op[2]] is not None:
                return False
            have = [x for x in place if place[x] == op[1]]
            if not have:
                return False
            if not att(op[2]):
                if len(have) == 1:
                    place[have[0]] = None
                place[op[2]] = op[1]
        elif op[0] == 'take':
            if place[op[2]] != op[1]:
                return False
            place[op[2]] = None
        elif op[0] == 'clear':
            for x in place:
                if place[x] == op[1]:
                    place[x] = None
    return True


# ---------------------------------------------------------------- the stream of an object

class Owner(object):
    """an object with a stream property, and what the property should hold"""
    def __init__(self, f, i, word):
        self.i, self.word, self.n = i, word, 0
        self.id = uid(i, 'X')
        self.want = None
        self.inside = self.gone = False
        self.o = f.create.EssenceData()
        self.o.mob_id = self.id
        self.fixed = util.pattern(i, 40)
        self.o['Data'].open('w').write(self.fixed)


def stream_step(f, c, op, sizes):
    o, n = c.o, 'SampleIndex'
    c.n += 1
    if op == 'r':
        # reading what is not there is run_unset's
        got = bytes(o[n].open('r').read()) if c.want is not None else None
        if got != c.want:
            raise Violation('reads %s' % util.short(got), 'stream-read')
    elif op in 'wx':
        data = util.pattern(c.i * 7 + c.n, sizes['wx'.index(op)])
        o[n].open('w').write(data)
        c.want = data
    elif op == 'a':
        s = o[n].open('rw')
        s.seek(0, 2)
        data = util.pattern(c.i + c.n, 30)
        s.write(data)
        c.want = (c.want or b'') + data
    elif op == 'd':
        if (n in o) != (c.want is not None):
            raise Violation('%s present' % ('is' if n in o else 'is not'), 'stream-present')
        if n in o:
            del o[n]
        c.want = None
    elif op == 'i':
        if not c.inside:
            f.content.essencedata.append(o)
            c.inside = True
    elif op == 'p':
        if c.inside:
            if f.content['EssenceData'].pop(c.id) is not o:
                raise Violation('another object was taken out', 'stream-pop')
            c.inside = False
    elif op == 'c':
        x = o.copy()
        x.mob_id = uid(c.i, 'Y')
        for m in (n, 'Data'):
            w = c.want if m == n else c.fixed
            if (m in x) != (w is not None) or (w is not None and bytes(x[m].open('r').read()) != w):
                raise Violation('%s of the copy differs' % m, 'stream-copy')


def run_streams(case, t):
    """case: (words, what happens between the steps, sizes, first number)"""
    ws, seps, sizes, base = case
    path = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
    f = aaf2.open(path, 'r+')
    cells = [Owner(f, base + j, w) for j, w in enumerate(ws)]
    try:
        for k in range(max(map(len, ws))):
            for c in cells:
                if k >= len(c.word) or c.gone:
                    continue
                try:
                    stream_step(f, c, c.word[k], sizes)
                    v = c.o['SampleIndex'].value if 'SampleIndex' in c.o else None
                    if (v is None) != (c.want is None) or (v is not None and v.byte_size != len(c.want)):
                        raise Violation('the property has %s' % (v and v.byte_size), 'stream-value')
                    t.step()
                except Exception as e:
                    sig, msg = (e.sig, e.msg) if isinstance(e, Violation) else ('exc:%s@%s' % (type(e).__name__, exc_site(e)), '%s: %s [%s]' % (type(e).__name__, e, tb_tail(e)))
                    raise Violation('stream property after %s with %s between, should be %s: %s' % ('-'.join(c.word[:k + 1]), seps, util.short(c.want), msg), sig, case=[[c.word], seps, sizes, c.i])
            s = seps[k:k + 1]
            if s == 's':
                f.save()
            elif s == 'o':
                f.close()
                f = aaf2.open(path, 'r+')
                for c in cells:
                    if c.inside:
                        c.o = f.content.essencedata.get(c.id)
                    else:
                        c.gone = True
        f.close()
        a = aafrig.load(path)
        if a.errors:
            raise Violation('stored file: %s' % a.errors[:3], 'stored', case=case)
        got = {k: x for k, x in a.root[1][aafrig.HEADER][1][1][0x3b03][1][1].get(0x1902, (0, {}))[1].items()}
        f = aaf2.open(path, 'r')
        si = f.metadict.lookup_classdef('EssenceData').all_propertydefs()
        pid = [p.pid for p in si if p.property_name == 'SampleIndex'][0]
        for c in cells:
            x = got.get(bytes(c.id.bytes_le))
            me = [[c.word], seps, sizes, c.i]
            t.state((c.word, seps, tuple(sizes)))
            if (x is not None) != (c.inside and not c.gone):
                raise Violation('%s with %s between: the object is%s in the file' % (c.word, seps, '' if x else ' not'), 'stream-object', case=me)
            if x is None:
                continue
            st = x[1].get(pid)
            if (st[1] if st else None) != c.want:
                raise Violation('%s with %s between: stores %s, should be %s' % (c.word, seps, st and util.short(st[1]), util.short(c.want)), 'stream-stored', case=me)
            if bytes(f.content.essencedata.get(c.id)['Data'].open('r').read()) != c.fixed:
                raise Violation('%s with %s between: the other stream changed' % (c.word, seps), 'stream-other', case=me)
    finally:
        try:
            f.f.close()
        except Exception:
            pass
        os.unlink(path)


def run_unset(case, t):
    """reading a stream that was never set fails and leaves the object alone; case: (where the object is, times read, what is done before and after)"""
    where, times, then = case
    path = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
    try:
        with aaf2.open(path, 'r+') as f:
            c = Owner(f, 1, '')
            if where != 'free':
                stream_step(f, c, 'i', [100, 1])
            if where == 'saved':
                f.save()
            for _ in range(times):
                try:
                    c.o['SampleIndex'].open('r')
                except aaf2.exceptions.AAFPropertyError:
                    t.step()
                else:
                    raise Violation('a stream that was never set could be read', 'stream-unset-read')
            sets = 'SampleIndex' in c.o
            for op in then:
                stream_step(f, c, op, [100, 1])
                if (c.o['SampleIndex'].value is None) != (c.want is None):
                    raise Violation('after reading it unset and %s the stream is %s' % (then, c.o['SampleIndex'].value), 'stream-unset-then')
                t.step()
            if not c.inside:
                stream_step(f, c, 'i', [100, 1])
        if c.want is not None:
            a = aafrig.load(path)
            if a.errors:
                raise Violation('stored file: %s' % a.errors[:3], 'stored')
            with aaf2.open(path, 'r') as f:
                if bytes(f.content.essencedata.get(c.id)['SampleIndex'].open('r').read()) != c.want:
                    raise Violation('after reading it unset and %s the stream reads differently' % then, 'stream-unset-then')
        if sets:
            raise Violation('reading an unset stream property of a writable file sets it', 'stream-read-sets')
        t.state(case)
    finally:
        os.unlink(path)


def stream_cases(n, schedules, sizes, batch):
    def gen():
        out = [''.join(w) for w in words('rwxadipc', n, n) if 'i' in w]
        for seps in schedules:
            for sz in sizes:
                for i in range(0, len(out), batch):
                    yield [out[i:i + batch], seps, sz, 1]
    return gen


def spaces(tier):
    T = tier == 'thorough'
    full, sm = alphabet(), small()

    def grouped(it, n=50):
        def g():
            last, batch = None, []
            for h in it():
                if batch and (h[0] != last or len(batch) >= n):
                    yield batch
                    batch = []
                last = h[0]
                batch.append(h)
            if batch:
                yield batch
        return g

    def pairs():
        for start in ('fresh', 'loaded'):
            for w in words(full, 3 if T else 2, 1):
                if useful(start, w):
                    yield [start, w]

    def deep():
        for start in ('loaded', 'fresh'):
            for w in words(sm, 5 if T else 3, 3):
                if useful(start, w):
                    yield [start, w]

    def shared():
        for a in ('seg', 'comps', 'slot', 'twice'):
            for b in ('seg', 'comps', 'slot', 'twice'):
                for kind in ('leaf', 'tree'):
                    yield [a, b, kind]
    return [Space('pairs', grouped(pairs), run, 'every applicable word of length 1-%d over %d operations, objects made in the session or loaded' % (3 if T else 2, len(full)), cpu_limit=300),
            Space('deep', grouped(deep), run, 'every applicable word of length 3-%d over %d operations' % (5 if T else 3, len(sm)), cpu_limit=300),
            Space('shared', shared, run_shared, 'every pair of unattached parents sharing an object'),
            Space('unset-stream', [[w, n, x] for w in ('free', 'inside', 'saved') for n in (1, 2) for x in ('', 'w', 'a', 'wr', 'wd', 'ww', 'wa', 'wc')], run_unset,
                  'reading a stream that was never set, then every short use of it'),
            Space('streams', stream_cases(5 if T else 4, ['....', 'ssss', '.s.o', 's.o.', 'oooo'] if T else ['...', 'sss', '.o.', 'so.'], [[100, 5000], [4096, 1]] if T else [[100, 5000]], 250), run_streams,
                  'every word over read, write, append, delete, put in, take out, copy of one stream x saves and sessions between', cpu_limit=300)]
