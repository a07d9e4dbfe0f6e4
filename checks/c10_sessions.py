"""C10: a saved object graph reopens equal, over any number of edit sessions.

(1) For every class and every property, words of set / set otherwise / edit in
place / delete run on one object each, all objects of a class sharing a file
and a schedule of saves and sessions between the steps; the stored file (as
the independent reader sees it) must hold what the last step left, computed
from the assigned values.  (2) Words over whole-project edits (mobs, slots,
components, keyed sets, key frames, streams, moves, definitions, classes) run
under every schedule; the stored file must equal the live objects when it was
closed, the reopened objects, and the result of every other schedule."""
import os, datetime
import aaf2
import aaf2.rational
import aaf2.properties as props
from aaf2.auid import AUID
from aaf2.mobid import MobID
from lib import aafrig, aafref, util, filler, typeref
from lib.mc import Space, Violation, words, exc_site, tb_tail

LEVEL = 'model_checking'
ASSUMPTIONS = ['values of the standard types and of types added to the file; one writer per file',
               'after reopening, objects are fetched from the file again']

ANYREF, ANYVEC, ANYPROP = 'c10c10c1-0000-4000-8000-000000000001', 'c10c10c1-0000-4000-8000-000000000002', 'c10c10c1-0000-4000-8000-000000000003'
IO_ = '0d010101-0101-0100-060e-2b3402060101'
HOLD = MobID(int=0x060a2b340101010501010f2013000000 << 128 | 0xc10)
OBJCLASS = 0x0101


def holder(f):
    m = f.content.mobs.get(HOLD)
    if m is None:
        md = f.metadict
        md.register_typedef_model({'strongrefs': {'McAnyRef': (ANYREF, IO_)}, 'var_arrays': {'McAnyVector': (ANYVEC, ANYREF)}})
        md.lookup_classdef('Mob').register_propertydef('McAnything', ANYPROP, None, ANYVEC, True)
        m = f.create.MasterMob('holder')
        m.mob_id = HOLD
        f.content.mobs.append(m)
    return m


# ---------------------------------------------------------------- (1) properties

class Cell(object):
    """one object, one property, what the property should hold"""
    def __init__(self, pa, p, word):
        self.pa, self.p, self.word = pa, p, word
        self.want = None
        self.base = None
        self.pid = None
        self.n = 0


def step_cell(F, cell, o, op, t):
    m, p = F.model, cell.p
    n, ty = p['name'], p['type']
    ref = m.target(ty)
    prop = o[n]
    cell.pid = prop.pid
    cell.n += 1
    t.step()
    if op == 'D':
        if n in o:
            del o[n]
        cell.want = None
        return
    v = {'A': 0, 'B': 1, 'E': 2}[op]
    if ref is None:
        if m.types[ty]['kind'] == 'Stream':
            if op == 'E' and cell.want is not None:
                s = prop.open('rw')
                s.seek(0, 2)
                add = util.pattern(cell.n, 700)
                s.write(add)
                cell.want = ('S', cell.want[1] + add)
                return
            d = util.pattern(40 + v, (30, 5000, 4096)[v])
            prop.open('w').write(d)
            cell.want = ('S', d)
            return
        dom = typeref.domain(ty)
        val, back, raw = dom[(v * 5 + 1) % len(dom)]
        prop.value = val
        cell.want = ('D', raw)
        return
    kind, base, shape = ref
    if kind == 'WeakRef':
        objs = F.weak(base, 2)
        if shape == 'one':
            x = objs[v % 2]
            prop.value = x
            cell.want = ('W', bytes(x.unique_key.bytes_le))
        else:
            use = [objs[:1], objs[::-1], objs[1:]][v]
            if op == 'E' and cell.want is not None:
                x = [x for x in objs if bytes(x.unique_key.bytes_le) not in cell.want[1]][:1]
                prop.extend(x)
                cell.want = ('WA', cell.want[1] + tuple(bytes(y.unique_key.bytes_le) for y in x))
            else:
                prop.value = use
                cell.want = ('WA', tuple(bytes(x.unique_key.bytes_le) for x in use))
        return
    c = m.simplest(base)

    def new(k):
        x = F.make(c, 0, k)
        if p['name'] == 'Parameters' and m.isa(c, m.byname['Parameter']):
            x['Definition'].value = F.paramdef().auid
        return x
    if shape == 'one':
        if op == 'E' and cell.want is not None:
            x = prop.value
            for pa, q in m.props(c):
                if q['optional'] and q['type'] in typeref.TYPES and typeref.is_data(q['type']) and m.types[q['type']]['kind'] != 'Set':
                    val, back, raw = typeref.domain(q['type'])[(cell.n * 3) % len(typeref.domain(q['type']))]
                    x[q['name']].value = val
                    form = (cell.want[1][0], dict(cell.want[1][1]))
                    form[1][x[q['name']].pid] = ('D', raw)
                    cell.want = ('R', form)
                    break
            return
        x = new(v)
        cell.want = ('R', aafrig.canon(x))
        prop.value = x
        return
    if op == 'E' and cell.want is not None:
        x = new(cell.n)
        form = aafrig.canon(x)
        if shape == 'vector' and prop.format == props.SF_STRONG_OBJECT_REFERENCE_VECTOR:
            if cell.n % 2 and len(prop):
                prop.pop(0)
                cell.want = ('V', cell.want[1][1:])
            prop.insert(0, x)
            cell.want = ('V', (form,) + cell.want[1])
        else:
            prop.append(x)
            cell.want = ('T', dict(cell.want[1], **{}))
            cell.want[1][bytes(x.unique_key.bytes_le)] = form
        return
    xs = [new(v + i) for i in range((2, 3, 1)[v])]
    if prop.format == props.SF_STRONG_OBJECT_REFERENCE_VECTOR:
        cell.want = ('V', tuple(aafrig.canon(x) for x in xs))
    else:
        cell.want = ('T', {bytes(x.unique_key.bytes_le): aafrig.canon(x) for x in xs})
    prop.value = xs


def got_form(stored, sub=True):
    """canonical property form without the parts that depend on tables"""
    if stored is None:
        return None
    if stored[0] == 'W':
        return ('W', stored[3])
    if stored[0] == 'WA':
        return ('WA', tuple(stored[3]))
    if stored[0] == 'R':
        return ('R', norm(stored[1]))
    if stored[0] == 'V':
        return ('V', tuple(norm(x) for x in stored[1]))
    if stored[0] == 'T':
        return ('T', {k: norm(x) for k, x in stored[1].items()})
    return stored


def norm(o):
    return (o[0], {k: got_form(v) for k, v in o[1].items()})


def want_form(w):
    if w is not None and w[0] in 'RVT':
        return got_form(w)
    return w


def settable(m, a):
    for pa, p in m.props(a):
        n, t = p['name'], p['type']
        if n == 'ObjClass' or p['unique']:
            continue
        if n == 'Definition' and t == typeref.TAUID:
            continue
        ref = m.target(t)
        if ref:
            if m.meta(ref[1]) and ref[0] == 'StrongRef':
                continue
            if ref[0] == 'StrongRef' and m.simplest(ref[1]) is None:
                continue
        elif m.types[t]['kind'] != 'Stream':
            if t not in typeref.TYPES or not typeref.is_data(t) or not typeref.domain(t) or m.types[t]['kind'] == 'Set':
                continue
        yield pa, p


def run_props(case, t):
    """case: (class ids, words, separators[, [[property, word]]])"""
    cs, ws, seps = case[:3]
    only = case[3] if len(case) > 3 else None
    path = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
    f = aaf2.open(path, 'r+')
    cells = []
    try:
        m = filler.Model()
        F = filler.Filler(f, m)
        h = holder(f)
        vec = h['McAnything']
        objs = []
        for a in cs:
            for pa, p in settable(m, a):
                if F.model.target(p['type']) and F.model.target(p['type'])[0] == 'WeakRef' and F.weak(F.model.target(p['type'])[1], 2) is None:
                    continue
                for w in ws:
                    if only is not None and [a, pa, w] not in only:
                        continue
                    if not p['optional'] and 'D' in w:
                        continue
                    cell = Cell(pa, p, w)
                    cell.cls = a
                    o = F.make(a, 0, 0)
                    cell.base = aafrig.canon(o)
                    cell.pid = o[p['name']].pid
                    cell.want = got_form(cell.base[1].get(cell.pid))
                    cell.raw = cell.base[1].get(cell.pid)
                    if cell.raw is not None and cell.raw[0] in 'RVT':
                        cell.want = cell.raw
                    cells.append(cell)
                    objs.append(o)
        vec.extend(objs)
        for k in range(max(len(w) for w in ws)):
            for i, cell in enumerate(cells):
                if k >= len(cell.word):
                    continue
                o = objs[i] if objs else vec.get(i)
                try:
                    step_cell(F, cell, o, cell.word[k], t)
                except Violation:
                    raise
                except Exception as e:
                    raise Violation('%s of %s.%s after %s: %s: %s [%s]' % (cell.word[k], m.classes[cell.cls]['name'], cell.p['name'], cell.word[:k], type(e).__name__, e, tb_tail(e)),
                                    'exc:%s@%s' % (type(e).__name__, exc_site(e)), case=[[cell.cls], [cell.word], seps, [[cell.cls, cell.pa, cell.word]]])
            if k < len(seps):
                s = seps[k]
                if s == 's':
                    f.save()
                elif s == 'r':
                    f.close()
                    f = aaf2.open(path, 'r+')
                    F.f = f
                    vec = f.content.mobs[HOLD]['McAnything']
                    objs = []
                elif s == 'x':       # no extensions, twice
                    for ext in (False, True):
                        f.close()
                        f = aaf2.open(path, 'r+', extensions=ext)
                    F.f = f
                    vec = f.content.mobs[HOLD]['McAnything']
                    objs = []
                elif s == 'n':       # storage named as by another writer
                    f.close()
                    aafrig.rename_storage(path)
                    f = aaf2.open(path, 'r+')
                    F.f = f
                    vec = f.content.mobs[HOLD]['McAnything']
                    objs = []
        live = aafrig.canon_file(f, skip=(aafrig.METADICT,))
        hpid = vec.pid
        f.close()
        a = aafrig.load(path)
        a.check_weak()
        if a.errors:
            raise Violation('stored file: %s' % a.errors[:3], 'stored', case=case)
        aafrig.same(live, (a.root[0], {k: v for k, v in a.root[1].items() if k != aafrig.METADICT}), 'stored file differs from the live objects')
        mobs = a.root[1][aafrig.HEADER][1][1]
        stored = find_mob(a.root)[1][hpid][1]
        if len(stored) != len(cells):
            raise Violation('%d objects stored instead of %d' % (len(stored), len(cells)), 'count', case=case)
        for i, cell in enumerate(cells):
            want = dict(norm(cell.base)[1])
            want.pop(cell.pid, None)
            w = want_form(cell.want)
            if w is not None:
                want[cell.pid] = w
            got = norm(stored[i])[1]
            for k in (cell.pid, ):
                if got.get(k) and got[k][0] == 'WA' and set_type(m, cell.p):
                    got[k] = ('WA', tuple(sorted(got[k][1])))
                    want[k] = ('WA', tuple(sorted(want[k][1])))
            t.state((cell.cls, cell.pa, cell.word, seps))
            if got != want:
                d = aafref.diff((b'', want), (b'', got))
                raise Violation('%s.%s after %s with %s between: expected / stored: %s' % (m.classes[cell.cls]['name'], cell.p['name'], '-'.join(cell.word), seps, '; '.join(d)[:500]),
                                'value', case=[[cell.cls], [cell.word], seps, [[cell.cls, cell.pa, cell.word]]])
    finally:
        try:
            f.f.close()
        except Exception:
            pass
        os.unlink(path)


def set_type(m, p):
    return m.types[p['type']]['kind'] == 'Set'


def find_mob(root):
    """stored form of the holder"""
    content = root[1][aafrig.HEADER][1][1][0x3b03][1]
    return content[1][0x1901][1][bytes(HOLD.bytes_le)]


def prop_cases(ws, sepsets, n):
    def gen():
        m = filler.Model()
        cs = m.concrete()
        for seps in sepsets:
            for i in range(0, len(cs), n):
                yield [cs[i:i + n], ws, seps]
    return gen


# ---------------------------------------------------------------- (2) projects

def mid(i, k):
    return MobID(int=0x060a2b340101010501010f2013000000 << 128 | (0x100000 + i * 64 + k))


class Cells(object):
    """n independent projects in one file"""
    def __init__(self, n):
        self.path = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
        self.f = aaf2.open(self.path, 'r+')
        self.n = n
        self.count = [0] * n

    def reopen(self, ext=True):
        self.f.close()
        self.f = aaf2.open(self.path, 'r+', extensions=ext)


STAMP = datetime.datetime(2001, 2, 3, 4, 5, 6)


def mk(f, kind, i, k, name):
    m = getattr(f.create, kind)(name)
    m.mob_id = mid(i, k)
    m['CreationTime'].value = m['LastModified'].value = STAMP
    return m


def comp(c, i):
    m = c.f.content.mobs.get(mid(i, 1))
    if m is None:
        m = mk(c.f, 'CompositionMob', i, 1, 'comp')
        c.f.content.mobs.append(m)
        m.create_picture_slot(25)
    return m


def seq(c, i):
    return comp(c, i).slots[0].segment


def op_mob(c, i, k):
    f = c.f
    m = f.content.mobs.get(mid(i, 2))
    if m is None:
        m = mk(f, 'SourceMob', i, 2, 'src%d' % k)
        m.descriptor = f.create.TapeDescriptor()
        f.content.mobs.append(m)
        m.create_tape_slots('tape', 25, 25)
    else:
        f.content.mobs.pop(m.mob_id)


def op_append(c, i, k):
    seq(c, i).components.append(c.f.create.Filler('picture', k + 1))


def op_insert(c, i, k):
    seq(c, i).components.insert(0, c.f.create.SourceClip(k, 5, mid(i, 2), 1, 'picture'))


def op_popmid(c, i, k):
    v = seq(c, i).components
    if len(v):
        v.pop(len(v) // 2)


def op_nest(c, i, k):
    """move what the slot holds into a new sequence in its place"""
    s = comp(c, i).slots[0]
    old = s.segment
    s['Segment'].value = c.f.create.Filler('picture', 1)
    new = c.f.create.Sequence('picture')
    s.segment = new
    new.components.append(old)


def op_comment(c, i, k):
    comp(c, i).comments['c%d' % (k % 2)] = k if k % 3 else 'text%d' % k


def op_delcomments(c, i, k):
    m = comp(c, i)
    if 'UserComments' in m:
        del m['UserComments']


def op_rename(c, i, k):
    comp(c, i).name = 'name %d' % k


def op_newid(c, i, k):
    m = comp(c, i)
    m.mob_id = mid(i, 10 + k)
    m.mob_id = mid(i, 1)


def op_essence(c, i, k):
    f = c.f
    e = f.content.essencedata.get(mid(i, 3))
    if e is None:
        e = f.create.EssenceData()
        e.mob_id = mid(i, 3)
        f.content.essencedata.append(e)
        e.open('w').write(util.pattern(i + 1, 100))
        return
    s = e.open('rw')
    s.seek(0, 2)
    s.write(util.pattern(i + 2, 4500 if k % 2 else 40))


def op_truncate(c, i, k):
    e = c.f.content.essencedata.get(mid(i, 3))
    if e is not None:
        s = e.open('rw')
        s.seek(70)
        s.truncate()


def op_keyframe(c, i, k):
    f = c.f
    v = seq(c, i).components
    g = [x for x in v if type(x).__name__ == 'OperationGroup']
    if not g:
        d = f.dictionary
        p = d['ParameterDefinitions'].get(AUID(int=0xc1001))
        if p is None:
            p = f.create.ParameterDef(AUID(int=0xc1001), 'level', '', 'Rational')
            d.register_def(p)
            o = f.create.OperationDef(AUID(int=0xc1002), 'effect', '')
            o.media_kind = 'picture'
            o['IsTimeWarp'].value = False
            o['Bypass'].value = 0
            o['NumberInputs'].value = 1
            o['OperationCategory'].value = 'OperationCategory_Effect'
            d.register_def(o)
            o.parameters.extend([p])
            d.register_def(f.create.InterpolationDef(AUID('5b6c85a4-0ede-11d3-80a9-006008143e6f'), 'LinearInterp', ''))
        g = f.create.OperationGroup('effect', 10, 'picture')
        g.segments.append(f.create.Filler('picture', 10))
        x = f.create.VaryingValue('level', 'LinearInterp')
        x.add_keyframe(5, 1)
        g.parameters.append(x)
        v.append(g)
        return
    list(g[0].parameters)[0].add_keyframe(k * 7 % 11, k)


def op_class(c, i, k):
    """a class of the file's own, and an object of it"""
    f = c.f
    md = f.metadict
    if md.lookup_classdef('McNote10') is None:
        md.register_classdef('McNote10', 'c10c10c1-0000-4000-8000-000000000010', 'TaggedValue', True, {
            'Weight': ('c10c10c1-0000-4000-8000-000000000011', None, 'aafInt32', True, False), 'Kin': ('c10c10c1-0000-4000-8000-000000000012', None, 'aafString', True, False)})
    x = f.create.McNote10()
    x['Name'].value = 'note%d' % k
    x['Value'].value = k
    x['Weight'].value = -k
    comp(c, i)['UserComments'].append(x)


def op_prop(c, i, k):
    f = c.f
    cd = f.metadict.lookup_classdef('Filler')
    cd.register_propertydef('McColor', 'c10c10c1-0000-4000-8000-000000000013', None, 'aafString', True)
    for x in seq(c, i).components:
        if type(x).__name__ == 'Filler':
            x['McColor'].value = 'c%d' % k
            break


def op_copy(c, i, k):
    f = c.f
    if f.content.mobs.get(mid(i, 20 + k)) is None:
        m = comp(c, i).copy()
        m.mob_id = mid(i, 20 + k)
        f.content.mobs.append(m)


def op_swap(c, i, k):
    """the same components in another order, assigned as a whole"""
    v = seq(c, i).components
    v.value = list(v.value)[::-1]


def op_clear(c, i, k):
    seq(c, i).components.clear()


OPS = {'m': op_mob, 'a': op_append, 'i': op_insert, 'p': op_popmid, 'n': op_nest, 'c': op_comment, 'd': op_delcomments, 'r': op_rename, 'u': op_newid,
       'e': op_essence, 't': op_truncate, 'k': op_keyframe, 'l': op_class, 'x': op_prop, 'y': op_copy, 'w': op_swap, 'z': op_clear}
# the sequence may have been moved one level down
_seq0 = seq


def seq(c, i):
    return _seq0(c, i)


def play(ws, seps, t, check=True):
    """-> stored form of the root without the data dictionary, data dictionary names"""
    got = None
    for got in playing(ws, seps, t, check):
        pass
    return got


def playing(ws, seps, t, check=True):
    """as play, but stops after every event; the last value is the stored form"""
    c = Cells(len(ws))
    try:
        n = max(len(w) for w in ws)
        for i in range(len(ws)):
            comp(c, i)
        for k in range(n):
            for i, w in enumerate(ws):
                if k < len(w):
                    OPS[w[k]](c, i, k)
                    t.step()
            yield None
            if k < n - 1:
                s = seps[k]
                if s == 's':
                    c.f.save()
                elif s == 'r':
                    before = aafrig.canon_file(c.f, skip=(aafrig.METADICT,))
                    c.reopen()
                    if check:
                        now = aafrig.canon_file(c.f, skip=(aafrig.METADICT,))
                        if now != before:
                            raise Violation('reopened objects differ from the live ones: %s' % '; '.join(aafref.diff(before, now)), 'reopen')
                elif s == 'x':
                    c.reopen(False)
                    c.reopen()
                elif s == 'n':
                    c.f.close()
                    aafrig.rename_storage(c.path)
                    c.f = aaf2.open(c.path, 'r+')
                yield None
        live = aafrig.canon_file(c.f, skip=(aafrig.METADICT,))
        c.f.close()
        a = aafrig.load(c.path)
        a.check_weak()
        if a.errors:
            raise Violation('stored file: %s' % a.errors[:3], 'stored')
        stored = (a.root[0], {k: v for k, v in a.root[1].items() if k != aafrig.METADICT})
        if live != stored:
            raise Violation('stored file differs from the live objects: %s' % '; '.join(aafref.diff(live, stored)), 'stored')
        yield norm(stored)
    finally:
        try:
            c.f.f.close()
        except Exception:
            pass
        os.unlink(c.path)


ALONE = {}


def run_interleaved(case, t):
    """case: (words of one file, words of the other, what happens between the steps of each, order of events)"""
    wa, wb, seps, order = case
    runs = [playing(wa, seps[0], t), playing(wb, seps[1], t)]
    got = [None, None]
    try:
        for x in order:
            got[x] = next(runs[x])
        t.state((tuple(wa), tuple(wb), tuple(seps), tuple(order)))
    except Violation as e:
        e.case = case
        e.msg = 'with two files open, events %s: %s' % (order, e.msg)
        raise
    except Exception as e:
        raise Violation('with two files open, events %s, %s between: %s: %s [%s]' % (order, seps, type(e).__name__, e, tb_tail(e)),
                        'exc:%s@%s' % (type(e).__name__, exc_site(e)), case=case)
    finally:
        for r in runs:
            r.close()
    for x in (0, 1):
        key = (tuple((wa, wb)[x]), seps[x])
        if key not in ALONE:
            ALONE.clear() if len(ALONE) > 4 else None
            ALONE[key] = play(key[0], seps[x], t)
        alone = ALONE[key]
        if got[x] != alone:
            raise Violation('file %d of two open at once, events %s with %s between, stores something else than the same edits on their own: %s' % (
                x, order, seps, '; '.join(aafref.diff(alone, got[x]))[:600]), 'interleaved', case=case)


def orders(n):
    """every merge of two runs of n events"""
    for w in words((0, 1), 2 * n, 2 * n):
        if sum(w) == n:
            yield list(w)


def interleaved_cases(alphabet, scheds, batch, every=1):
    def gen():
        ws = [''.join(w) for w in words(alphabet, 2, 2)]
        ws = [w for w in ws if (alphabet.index(w[0]) * 3 + alphabet.index(w[1])) % every == 0]
        for i in range(0, len(ws), batch):
            wa = ws[i:i + batch]
            for seps in scheds:
                for o in orders(4):
                    if o[0] == 0 or seps[0] != seps[1]:
                        yield [wa, [w[::-1] for w in wa][::-1], seps, o]
    return gen


def run_words(case, t):
    """case: (words, schedules): every schedule must give the same file"""
    ws, scheds = case
    first = None
    for seps in scheds:
        try:
            got = play(ws, seps, t)
        except Exception as e:
            if len(ws) > 1:
                for w in ws:
                    run_words([[w], scheds], t)
            if isinstance(e, Violation):
                e.case = e.case or [ws, [seps]]
                e.msg = 'words %s with %s between: %s' % (ws[:3], seps, e.msg)
                raise
            raise Violation('words %s with %s between: %s: %s [%s]' % (ws[:3], seps, type(e).__name__, e, tb_tail(e)), 'exc:%s@%s' % (type(e).__name__, exc_site(e)), case=[ws, [seps]])
        t.state((tuple(ws), seps))
        if first is None:
            first = got
        elif got != first:
            if len(ws) > 1:
                for w in ws:
                    run_words([[w], [scheds[0], seps]], t)
            d = aafref.diff(first, got)
            raise Violation('words %s: %s between the steps stores something else than %s: %s' % (ws[:3], seps, scheds[0], '; '.join(d)[:600]), 'split', case=[ws, [scheds[0], seps]])


def word_cases(n, alphabet, scheds, batch):
    def gen():
        out = [''.join(w) for w in words(alphabet, n, n)]
        for i in range(0, len(out), batch):
            yield [out[i:i + batch], scheds]
    return gen


# ---------------------------------------------------------------- (3) objects made inside another object's constructor

def run_nested(case, t):
    order = case
    path = aafrig.newpath()
    try:
        with aaf2.open(path, 'w') as f:
            c = f.create
            forms = {
                'slot': lambda: c.TimelineMobSlot(3, 'n', c.Sequence('picture'), 0, 25),
                'slot2': lambda: c.TimelineMobSlot(4, 'n', c.SourceClip(0, 5, mid(0, 9), 1, c.DataDef().root.dictionary.lookup_datadef('sound')), 0, 24),
                'event': lambda: c.EventMobSlot(5, 'e', c.Filler(media_kind='picture', length=c.Filler('picture', 9).length)),
                'static': lambda: c.StaticMobSlot(6, segment=c.Timecode(c.Timecode(24).fps, True)),
            }
            m = mk(f, 'CompositionMob', 0, 1, 'nest')
            want = []
            for n in order:
                s = forms[n]()
                for x in (s, s.segment):
                    if x.root is not f:
                        raise Violation('%s of %s belongs to %r' % (x, n, x.root), 'root')
                if n == 'event':
                    s['EditRate'].value = 25
                m.slots.append(s)
                want.append(aafrig.canon(s))
                t.step()
            f.content.mobs.append(m)
        with aaf2.open(path, 'r') as f:
            got = [aafrig.canon(s) for s in f.content.mobs[mid(0, 1)].slots]
        if got != want:
            raise Violation('slots made in one expression (%s) reopen different' % '-'.join(order), 'nested')
        t.state(tuple(order))
    finally:
        if os.path.exists(path):
            os.unlink(path)


# ---------------------------------------------------------------- (4) attributes of the classes

# attribute: (class that has it, property it stands for)
ATTRS = {
    'length': (('Component', 'Length'), ('FileDescriptor', 'Length')), 'datadef': (('Component', 'DataDefinition'), ('OperationDefinition', 'DataDefinition')),
    'media_kind': (('Component', 'DataDefinition'), ('OperationDefinition', 'DataDefinition')), 'cutpoint': (('Transition', 'CutPoint'),),
    'mob_id': (('SourceReference', 'SourceID'), ('Mob', 'MobID'), ('EssenceData', 'MobID')), 'mob': (('SourceReference', 'SourceID'), ('EssenceData', 'MobID')),
    'slot_id': (('SourceReference', 'SourceMobSlotID'), ('MobSlot', 'SlotID')), 'slot': (('SourceReference', 'SourceMobSlotID'),),
    'start': (('SourceClip', 'StartTime'), ('Timecode', 'Start')), 'fps': (('Timecode', 'FPS'),), 'drop': (('Timecode', 'Drop'),),
    'operation': (('OperationGroup', 'Operation'),), 'parameters': (('OperationGroup', 'Parameters'),),
    'name': (('DefinitionObject', 'Name'), ('Mob', 'Name'), ('MobSlot', 'SlotName'), ('TaggedValue', 'Name')), 'description': (('DefinitionObject', 'Description'),),
    'auid': (('DefinitionObject', 'Identification'), ('Parameter', 'Definition')), 'uuid': (('DefinitionObject', 'Identification'),),
    'parameterdef': (('Parameter', 'Definition'),), 'number_inputs': (('OperationDefinition', 'NumberInputs'),), 'typedef': (('ParameterDefinition', 'Type'),),
    'interpolationdef': (('VaryingValue', 'Interpolation'),), 'interpolation': (('VaryingValue', 'Interpolation'),), 'time': (('ControlPoint', 'Time'),),
    'value': (('ControlPoint', 'Value'), ('ConstantValue', 'Value'), ('TaggedValue', 'Value')), 'usage': (('Mob', 'UsageCode'),), 'descriptor': (('SourceMob', 'EssenceDescription'),),
    'segment': (('MobSlot', 'Segment'),), 'edit_rate': (('TimelineMobSlot', 'EditRate'), ('EventMobSlot', 'EditRate')), 'origin': (('TimelineMobSlot', 'Origin'),),
}
# fixed once the object is in the file
KEYS = ('MobID', 'Identification', 'Definition')
RATIONAL = aaf2.rational.AAFRational


def attrs(m, a):
    out = []
    for n, where in sorted(ATTRS.items()):
        for c, p in where:
            if m.isa(a, m.byname[c]):
                out.append((n, p))
    return out


def attr_value(F, a, attr, prop, v, o):
    """-> (value to assign, value to read back, stored form or None)"""
    f, m = F.f, F.model
    (pa, p), = [(pa, p) for pa, p in m.props(a) if p['name'] == prop]
    ty = p['type']
    ref = m.target(ty)

    def weak(x, val=None):
        return (x if val is None else val), (x if val is None else val), ('W', bytes(x.unique_key.bytes_le))
    if attr == 'media_kind':
        x = f.dictionary.lookup_datadef(('picture', 'sound', 'timecode')[v])
        return weak(x, x.short_name)
    if attr in ('mob', 'slot'):
        mob = f.content.mobs[HOLD] if v else f.content.mobs.get(mid(1, 1))
        if attr == 'mob':
            return mob, mob, ('D', bytes(mob.mob_id.bytes_le))
        s = mob.slots[0]
        return s, s, ('D', s.slot_id.to_bytes(4, 'little'))
    if attr == 'uuid':
        u = F.new_id()
        return u.uuid, u.uuid, ('D', bytes(u.bytes_le))
    if attr == 'parameterdef':
        x = F.paramdef()
        return x, x, ('D', bytes(x.auid.bytes_le))
    if prop == 'Definition':
        x = F.paramdef()
        return x.auid, x.auid, ('D', bytes(x.auid.bytes_le))
    if ref and ref[0] == 'WeakRef':
        return weak(F.weak(ref[1], 3)[v] if ref[1] != filler.TYPEDEF else F.f.metadict.lookup_typedef(('aafInt32', 'aafString', 'Rational')[v]))
    if attr == 'parameters':
        xs = []
        for i in range(v + 1):
            x = F.make(m.byname['ConstantValue'], 0, v)
            x['Definition'].value = F.paramdef().auid
            xs.append(x)
        if prop == 'Parameters' and o['Parameters'].format == props.SF_STRONG_OBJECT_REFERENCE_SET:
            return xs, None, ('T', {bytes(x.unique_key.bytes_le): norm(aafrig.canon(x)) for x in xs})
        return xs, None, ('V', tuple(norm(aafrig.canon(x)) for x in xs))
    if ref:
        x = F.make(m.simplest(ref[1]), 0, v)
        return x, x, ('R', norm(aafrig.canon(x)))
    if prop == 'Identification':
        u = F.new_id()
        return u, u, ('D', bytes(u.bytes_le))
    if prop == 'MobID':
        u = F.new_mobid()
        return u, u, ('D', bytes(u.bytes_le))
    if prop == 'Value' and m.isa(a, m.byname['ControlPoint']):
        x = (RATIONAL(1, 2), RATIONAL(-7, 4), RATIONAL(0, 1))[v]
        return x, float(x), ('D', None)
    if prop == 'Value' and m.isa(a, m.byname['ConstantValue']):
        x = (RATIONAL(1, 2), RATIONAL(-7, 4), RATIONAL(0, 1))[v]
        return x, x, ('D', None)
    if prop == 'Value':
        x = (5, 'text', -7)[v]
        return x, x, ('D', None)
    if prop == 'Time':
        x = (RATIONAL(1, 2), RATIONAL(-7, 4), RATIONAL(0, 1))[v]
        return x, float(x), ('D', x.numerator.to_bytes(4, 'little', signed=True) + x.denominator.to_bytes(4, 'little'))
    dom = typeref.domain(ty)
    val, back, raw = dom[(v * 5 + 2) % len(dom)]
    return val, back, ('D', raw)


def run_attrs(case, t):
    """case: (class ids, words[, [[class, attribute, word]]]); in words: ABC assign before the object is added to the file, abc after, N removes, s saves, r reopens"""
    cs, ws = case[:2]
    only = case[2] if len(case) > 2 else None
    path = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
    f = aaf2.open(path, 'r+')
    try:
        m = filler.Model()
        F = filler.Filler(f, m)
        h = holder(f)
        h.create_picture_slot(25)
        other = mk(f, 'MasterMob', 1, 1, 'other')
        f.content.mobs.append(other)
        other.create_empty_sequence_slot(25)
        other.slots[0].slot_id = 77
        vec = h['McAnything']
        cells = []
        for a in cs:
            opt = {p['name']: p['optional'] for pa, p in m.props(a)}
            for attr, prop in attrs(m, a):
                if getattr(getattr(F.f.metadict.lookup_class(AUID(a)), attr, None), 'fset', None) is None:
                    continue
                for w in ws:
                    if only is not None and [a, attr, w] not in only:
                        continue
                    if ('N' in w and (not opt[prop] or attr in ('mob', 'slot', 'uuid', 'parameterdef', 'media_kind', 'parameters'))) or (prop in KEYS and w.upper() != w):
                        continue
                    o = F.make(a, 0, 0)
                    if attr == 'slot':
                        o['SourceID'].value = HOLD
                    base = aafrig.canon(o)
                    cells.append([a, attr, prop, w, o, norm(base)[1], o[prop].pid, None, None])
        for k in range(max(len(w) for w in ws)):
            for i, cell in enumerate(cells):
                a, attr, prop, w, o, base, pid, val, want = cell[:9]
                if k >= len(w):
                    continue
                if w[k] not in 'ABC' and len(cell) == 9:
                    cell[8] = want
                    vec.append(o)
                    cell.append(len(vec) - 1)
                ch = w[k].upper()
                if len(cell) > 9:
                    o = vec.get(cell[9])
                try:
                    if attr in ('slot', 'mob') and ch in 'ABC' and prop != 'MobID':
                        o['SourceID'].value = HOLD if 'ABC'.index(ch) else mid(1, 1)
                        cell[5][o['SourceID'].pid] = ('D', bytes(o['SourceID'].value.bytes_le))
                    if ch in 'ABC':
                        val, back, want = attr_value(F, a, attr, prop, 'ABC'.index(ch), o)
                        setattr(o, attr, val)
                    elif ch == 'N':
                        setattr(o, attr, None)
                        back, want = None, ('-',)
                    t.step()
                    if ch in 'ABCN':
                        cell[7], cell[8] = back, want
                        now = getattr(o, attr)
                        if want[0] in 'DW-' and not typeref.same_value(now, back):
                            raise Violation('reads %r after %r was assigned' % (now, val if ch != 'N' else None), 'live')
                except Violation as e:
                    e.msg = '%s.%s after %s: %s' % (m.classes[a]['name'], attr, w[:k + 1], e.msg)
                    e.case = [[a], [w], [[a, attr, w]]]
                    raise
                except Exception as e:
                    raise Violation('%s.%s, step %d of %s: %s: %s [%s]' % (m.classes[a]['name'], attr, k, w, type(e).__name__, e, tb_tail(e)), 'exc:%s@%s' % (type(e).__name__, exc_site(e)), case=[[a], [w], [[a, attr, w]]])
            if all(w[k:k + 1] == 's' for w in ws):
                f.save()
            if all(w[k:k + 1] == 'r' for w in ws):
                f.close()
                f = aaf2.open(path, 'r+')
                F.f = f
                vec = f.content.mobs[HOLD]['McAnything']
        for cell in cells:
            if len(cell) < 10:
                vec.append(cell[4])
                cell.append(len(vec) - 1)
        hpid = vec.pid
        f.close()
        a = aafrig.load(path)
        a.check_weak()
        if a.errors:
            raise Violation('stored file: %s' % a.errors[:3], 'stored', case=case)
        stored = find_mob(a.root)[1][hpid][1]
        f = aaf2.open(path, 'r')
        vec = f.content.mobs[HOLD]['McAnything']
        for cl, attr, prop, w, o, base, pid, back, want, i in cells:
            expect = dict(base)
            expect.pop(pid, None)
            got = norm(stored[i])[1]
            t.state((cl, attr, w))
            if want[0] == 'D' and want[1] is None:
                got.pop(pid, None)
            elif want[0] != '-':
                expect[pid] = want
            me = [[cl], [w], [[cl, attr, w]]]
            if got != expect:
                raise Violation('%s.%s after %s: expected / stored: %s' % (m.classes[cl]['name'], attr, w, '; '.join(aafref.diff((b'', expect), (b'', got)))[:500]), 'stored-value', case=me)
            if want[0] in 'D-':
                now = getattr(vec.get(i), attr)
                if attr in ('mob', 'slot'):
                    now, back = now and (now.unique_key if attr == 'mob' else now.slot_id), back and (back.unique_key if attr == 'mob' else back.slot_id)
                elif attr == 'parameterdef':
                    now, back = now.auid, AUID(bytes_le=want[1])
                if not typeref.same_value(now, back):
                    raise Violation('%s.%s after %s reads %r when reopened, not %r' % (m.classes[cl]['name'], attr, w, now, back), 'reopened', case=me)
            elif want[0] == 'W':
                now = getattr(vec.get(i), attr)
                if now != back if attr == 'media_kind' else now is None or bytes(now.unique_key.bytes_le) != want[1]:
                    raise Violation('%s.%s after %s reads %r when reopened' % (m.classes[cl]['name'], attr, w, now), 'reopened', case=me)
    finally:
        try:
            f.f.close()
        except Exception:
            pass
        os.unlink(path)


def attr_cases(wss, n):
    def gen():
        m = filler.Model()
        cs = m.concrete()
        for ws in wss:
            for i in range(0, len(cs), n):
                yield [cs[i:i + n], ws]
    return gen


# ---------------------------------------------------------------- (5) arguments of the constructors

CTORS = {'Filler': ('media_kind', 'length'), 'Sequence': ('media_kind', 'length'), 'Transition': ('media_kind', 'length'), 'Selector': ('media_kind', 'length'),
         'SourceClip': ('start', 'length', 'mob_id', 'slot_id', 'media_kind'), 'Timecode': ('fps', 'drop', 'length'), 'OperationGroup': ('operationdef', 'length', 'media_kind'),
         'MasterMob': ('name',), 'CompositionMob': ('name',), 'TimelineMobSlot': ('slot_id', 'name', 'segment', 'origin', 'edit_rate'),
         'EventMobSlot': ('slot_id', 'name', 'segment'), 'StaticMobSlot': ('slot_id', 'name', 'segment'), 'TaggedValue': ('name', 'value', 'value_typedef'),
         'ConstantValue': ('parameterdef', 'value'), 'VaryingValue': ('parameterdef', 'interperlationdef'),
         'DataDef': ('auid', 'name', 'description'), 'OperationDef': ('auid', 'name', 'description'), 'ParameterDef': ('auid', 'name', 'description', 'typedef'),
         'InterpolationDef': ('auid', 'name', 'description'), 'ContainerDef': ('auid', 'name', 'description')}


def run_ctors(case, t):
    """case: [class, argument names]: read back from the object and from the reopened file"""
    cls, names = case
    path = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
    f = aaf2.open(path, 'r+')
    try:
        m = filler.Model()
        F = filler.Filler(f, m)
        h = holder(f)
        vec = h['McAnything']
        wants = []
        sound = f.dictionary.lookup_datadef('sound')
        for v in range(3):
            op = F.make(m.byname['OperationDefinition'], 0, 0)
            op.name = 'mcop%d' % v
            op.datadef = sound if v else f.dictionary.lookup_datadef('picture')
            f.dictionary.register_def(op)
            pd = F.paramdef()
            pd.name = 'mcparam%d' % v
            idef = f.create.InterpolationDef(F.new_id(), 'mcinterp%d' % v, '')
            f.dictionary.register_def(idef)
            seg = f.create.Filler('sound', 5 + v)
            ident = F.new_id()
            form = norm(aafrig.canon(seg))
            # name: value, (attribute, expected)
            val = {'media_kind': (('Picture', 'DataDef_Sound', 'timecode')[v], ('media_kind', ('Picture', 'Sound', 'Timecode')[v])), 'length': (7 + v, ('length', 7 + v)),
                   'start': (3 * v, ('start', 3 * v)), 'mob_id': (mid(1, 5 + v), ('mob_id', mid(1, 5 + v))), 'slot_id': (1 + v, ('slot_id', 1 + v)),
                   'fps': (24 + v, ('fps', 24 + v)), 'drop': (v == 1, ('drop', v == 1)), 'operationdef': ((op, op.name, op.auid)[v], ('operation.auid', op.auid)),
                   'name': ('n%d' % v, ('name', 'n%d' % v)), 'segment': (seg, ('segment', form)), 'origin': (-v, ('origin', -v)), 'edit_rate': ((25, RATIONAL(30000, 1001), '24/1')[v], ('edit_rate', (25, RATIONAL(30000, 1001), 24)[v])),
                   'value': ((5, 'text', RATIONAL(1, 2))[v], ('value', (5, 'text', RATIONAL(1, 2))[v])), 'value_typedef': ((), ()),
                   'parameterdef': ((pd, pd.name, pd.auid)[v], ('parameterdef.auid', pd.auid)), 'interperlationdef': ((idef, idef.name, idef.auid)[v], ('interpolationdef.auid', idef.auid)),
                   'auid': ((ident, str(ident), ident.uuid)[v], ('auid', ident)), 'description': ('d%d' % v, ('description', 'd%d' % v)),
                   'typedef': (('aafInt32', f.metadict.lookup_typedef('aafString'), f.metadict.lookup_typedef('Rational').auid)[v], ('typedef.type_name', ('aafInt32', 'aafString', 'Rational')[v]))}
            if cls == 'ConstantValue':
                val['value'] = (RATIONAL(v, 3), ('value', RATIONAL(v, 3)))
            kw = {n: val[n][0] for n in names}
            if 'value_typedef' in kw:
                kw['value'] = 9 + v
                kw['value_typedef'] = [f.metadict.lookup_typedef(x) for x in ('aafUInt8', 'aafInt64', 'aafUInt16')][v]
                val['value'] = (kw['value'], ('value', 9 + v))
                val['value_typedef'] = ((), ('value_typedef.type_name', ('aafUInt8', 'aafInt64', 'aafUInt16')[v]))
            want = dict([val[n][1] for n in names])
            if cls == 'OperationGroup' and 'media_kind' not in names:
                want['media_kind'] = op.media_kind
            elif 'media_kind' in CTORS[cls] and 'media_kind' not in names:
                want['media_kind'] = 'Picture'
            if cls == 'Timecode':
                want['media_kind'] = 'Timecode'
                want['start'] = 0
                if 'length' not in names:
                    want['length'] = want.get('fps', 25) * 60 * 60 * 12
            try:
                o = getattr(f.create, cls)(**kw)
                t.step()
                compare(o, want, 'made')
                # what else the file needs
                for pa, p in m.props(str(o.class_id)):
                    if not p['optional'] and p['name'] not in o and p['name'] != 'ObjClass':
                        F.set(o, str(o.class_id), pa, p, 0, 0)
                vec.append(o)
                compare(o, want, 'added')
            except Violation as e:
                e.msg = '%s(%s): %s' % (cls, ', '.join('%s=%r' % x for x in sorted(kw.items())), e.msg)
                raise
            wants.append((kw, want))
        f.close()
        f = aaf2.open(path, 'r')
        for i, (kw, want) in enumerate(wants):
            compare(f.content.mobs[HOLD]['McAnything'].get(i), want, '%s(%s) reopened' % (cls, sorted(kw)))
            t.state((cls, tuple(names), i))
    finally:
        try:
            f.f.close()
        except Exception:
            pass
        os.unlink(path)


def compare(o, want, when):
    for n, x in sorted(want.items()):
        got = o
        for a in n.split('.'):
            got = getattr(got, a)
        if n == 'segment':
            got = norm(aafrig.canon(got))
        if got != x:
            raise Violation('%s: %s is %r, not %r' % (when, n, got, x), 'ctor:' + n)


def ctor_cases():
    for cls, names in sorted(CTORS.items()):
        need = [n for n in names if n == 'operationdef' or (n == 'parameterdef')] + (['slot_id'] if cls.endswith('Slot') else []) + (['auid', 'name'] if cls.endswith('Def') else []) + (['name'] if cls == 'TaggedValue' else [])
        free = [n for n in names if n not in need]
        for k in range(2 ** len(free)):
            use = need + [n for i, n in enumerate(free) if k >> i & 1]
            if 'value_typedef' in use and 'value' not in use:
                continue
            yield [cls, [n for n in names if n in use]]


def spaces(tier):
    nest = [list(w) for w in words(['slot', 'slot2', 'event', 'static'], 2, 1)]
    if tier == 'quick':
        return [
            Space('properties', prop_cases([''.join(w) for w in words('ABED', 2, 2)], ['.', 's', 'r', 'n'], 6), run_props,
                  'every settable property of every class x words of two over set/set/edit/delete x what happens between', cpu_limit=240),
            Space('projects', word_cases(2, ''.join(OPS), ['.', 's', 'r'], 17), run_words, 'every pair of project edits x nothing, save, new session or foreign storage names between', cpu_limit=240),
            Space('interleaved', interleaved_cases(''.join(OPS), ['sr'], 80, 4), run_interleaved, 'two files open at once: every merge of the events of two pairs of edits', cpu_limit=240),
            Space('nested', nest, run_nested, 'objects created inside constructor arguments', cpu_limit=60),
            Space('attributes', attr_cases([['A', 'AB', 'Cb', 'cN', 'bac'], ['asb', 'asN'], ['bra', 'brN']], 20), run_attrs, 'every attribute of every class: assigned before and after the object is added, removed, over a save and a session', cpu_limit=240),
            Space('constructors', ctor_cases, run_ctors, 'every subset of the optional arguments of every constructor x 3 values', cpu_limit=60),
        ]
    sc2 = ['..', 's.', '.s', 'ss', 'r.', '.r', 'rr', 'sr', 'rs', 'xr', 'nr', 'rn']
    return [
        Space('properties', prop_cases([''.join(w) for w in words('ABED', 3, 3)], ['..', 'ss', 'r.', '.r', 'rr', 'sr', 'rs', 'xr', 'nr'], 3), run_props,
              'every settable property of every class x words of three over set/set/edit/delete x what happens between', cpu_limit=900),
        Space('projects', word_cases(3, ''.join(OPS), sc2, 34), run_words, 'every triple of project edits x saves and sessions between', cpu_limit=900),
        Space('projects4', word_cases(4, 'aipcekn', ['...', 's.s', '.r.', 'rrr'], 49), run_words, 'words of four', cpu_limit=900),
        Space('interleaved', interleaved_cases(''.join(OPS), ['ss', 'sr', 'rr', 'rx', 'nr', '.n'], 60), run_interleaved, 'two files open at once: every merge of the events of two pairs of edits', cpu_limit=240),
        Space('nested', nest, run_nested, 'objects created inside constructor arguments', cpu_limit=60),
        Space('attributes', attr_cases([[''.join(w) for w in words('ABabN', 4, 1)]] + [[x + k + y + k + z for x in 'ab' for y in 'baN' for z in 'abcN'] for k in 'sr'], 10), run_attrs, 'every attribute of every class, longer words', cpu_limit=900),
        Space('constructors', ctor_cases, run_ctors, 'every subset of the optional arguments of every constructor x 3 values', cpu_limit=60),
    ]
