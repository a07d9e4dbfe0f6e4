"""C14: weak references resolve to the object with the referenced id.

Words over adding, replacing and removing target objects, setting single
references, editing reference vectors and sets, copying the holders, adding
references of kinds the file's reference table does not know yet, saving and
reopening.  The model is the list of referenced ids of each holder and the
map id -> object of each target collection; after every operation every
reference is resolved and compared by identity.  Closed files are parsed
independently: table paths, keys, key pids, and resolution."""
import os
import struct
import aaf2
from aaf2.auid import AUID
from aaf2.mobid import MobID
from aaf2.cache import LRUCacheDict
from aaf2.cfb import CompoundFileBinary
from lib import aafrig, aafref, util
from lib.mc import Space, Violation, words, exc_site, tb_tail

LEVEL = 'model_checking'
ASSUMPTIONS = ['targets: parameter definitions, data definitions (16-byte ids) and mobs (32-byte ids); holders: a single reference of each kind, a vector and a set',
               'a reference whose target is absent may raise KeyError']

P_PROP = AUID('aaaaaaaa-0000-0000-060e-2b3401010101')
KEYPID = {'P': 0x1b01, 'D': 0x1b01, 'M': 0x4401}
PATHPIDS = {'P': (2, 0x3b04, 0x2604), 'D': (2, 0x3b04, 0x2605), 'M': (2, 0x3b03, 0x1901)}


def tid(k, i):
    if k == 'M':
        return MobID(int=0x060a2b340101010501010f2013000000 << 128 | 0xdd0000 + i)
    return AUID(int=(0x0d0102030405060708090a0b0c000000 if k == 'P' else 0x0d0102030405060708090a0b0d000000) + i)


HOLD = AUID(int=0x0d0102030405060708090a0b0e000000)
HOLDMOB = MobID(int=0x060a2b340101010501010f2013000000 << 128 | 0xee0000)


class S(object):
    def __init__(self, f):
        self.f = f
        self.objs = {}                  # (kind, i) -> live object or None when not held
        self.have = set()
        self.refs = {'one': None, 'mob': None, 'vec': [], 'set': []}     # holder -> keys (kind, i)
        self.copies = 0
        self.extra = 0
        self.copymodel = []

    def coll(self, k):
        return self.f.content.mobs if k == 'M' else self.f.dictionary['ParameterDefinitions' if k == 'P' else 'DataDefinitions']

    def target(self, k, i):
        return self.coll(k).get(tid(k, i))

    def make(self, k, i):
        if k == 'M':
            o = self.f.create.MasterMob('m%d' % i)
            o.mob_id = tid(k, i)
            return o
        if k == 'P':
            return self.f.create.ParameterDef(tid(k, i), 'p%d' % i, '', 'Rational')
        return self.f.create.DataDef(tid(k, i), 'd%d' % i, '')

    def holder(self, h):
        if h == 'set':
            return self.f.dictionary['OperationDefinitions'][HOLD], 'ParametersDefined'
        if h == 'vec':
            return self.f.dictionary['CodecDefinitions'][HOLD], 'DataDefinitions'
        seg = list(self.f.content.mobs[HOLDMOB].slots)[0].segment
        return seg, 'DataDefinition' if h == 'one' else 'MobRef'

    def prop(self, h):
        o, n = self.holder(h)
        return o[n]


KIND = {'one': 'D', 'mob': 'M', 'vec': 'D', 'set': 'P'}


def build(f):
    f.metadict.register_classdef('Filler', '0d010101-0101-0900-060e-2b3402060101', 'Segment', True,
                                 {'MobRef': (str(P_PROP), None, 'MobWeakReference', True, False)})
    s = S(f)
    for k in 'PDM':
        for i in (0, 1):
            s.coll(k).append(s.make(k, i))
            s.have.add((k, i))
    od = f.create.OperationDef(HOLD, 'hold', '')
    od['DataDefinition'].value = f.dictionary.lookup_datadef('picture')
    od['NumberInputs'].value = 1
    od['OperationCategory'].value = 'OperationCategory_Effect'
    od['Bypass'].value = 0
    f.dictionary.register_def(od)
    cd = f.create.CodecDef(f.dictionary, HOLD, 'hold', '', 'CDCIDescriptor', [])
    f.dictionary.register_def(cd)
    m = f.create.CompositionMob('holder')
    m.mob_id = HOLDMOB
    f.content.mobs.append(m)
    slot = m.create_timeline_slot(25)
    slot.segment = f.create.Filler(length=3)
    slot.segment['DataDefinition'].value = s.target('D', 0)
    od['ParametersDefined'].append(s.target('P', 0))
    od['ParametersDefined'].append(s.target('P', 1))
    cd['DataDefinitions'].append(s.target('D', 1))
    cd['DataDefinitions'].append(s.target('D', 0))
    return s


_img = []


def start():
    if not _img:
        p = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
        f = aaf2.open(p, 'r+')
        build(f)
        f.close()
        _img.append(aafrig.readfile(p))
        os.unlink(p)
    return _img[0]


def tables(n):
    """(name, new table as old indices or 'unused', which of equal entries the references use)"""
    ident = list(range(n))
    for i in range(n):
        for j in range(i + 1, n):
            l = list(ident)
            l[i], l[j] = l[j], l[i]
            yield ['swap', i, j], l, 0
    yield ['reversed'], ident[::-1], 0
    for i in range(n):
        for j in range(n + 1):
            for use in (0, 1, 2):
                yield ['twice', i, j, use], ident[:j] + [i] + ident[j:], use
    for j in range(n + 1):
        yield ['unused', j], ident[:j] + ['unused'] + ident[j:], 0


UNUSED = (2, 0x3b04, 0x2606)


def retable(data, what):
    """the same file with another, equivalent reference table, as other writers make them"""
    a = aafref.AAF(data)
    old = list(a.weak)
    new, use = [(l, u) for w, l, u in tables(len(old)) if w == what][0]
    count = [0]

    def index(i):
        if i >= len(old):
            return i
        l = [k for k, x in enumerate(new) if x == i]
        count[0] += 1
        return l[0] if use == 0 else l[-1] if use == 1 else l[count[0] % len(l)]
    out = {}
    pids = [q for x in new for q in (UNUSED if x == 'unused' else old[x]) + (0,)]
    out['/referenced properties'] = struct.pack('<BHI%dH' % len(pids), 0x4c, len(new), len(pids), *pids)
    for path, s in sorted(a.img.streams.items()):
        if not path.endswith('/properties'):
            continue
        b = bytearray(s)
        n = struct.unpack('<H', s[2:4])[0]
        off = 4 + 6 * n
        for k in range(n):
            pid, fmt, size = struct.unpack('<HHH', s[4 + 6 * k:10 + 6 * k])
            if fmt == aafref.WREF:
                b[off:off + 2] = struct.pack('<H', index(struct.unpack('<H', s[off:off + 2])[0]))
            elif fmt in (aafref.WVEC, aafref.WSET):
                ip = path[:-len('properties')] + s[off:off + size].decode('utf-16-le').rstrip('\0') + ' index'
                x = bytearray(a.img.streams[ip])
                x[4:6] = struct.pack('<H', index(struct.unpack('<H', x[4:6])[0]))
                out[ip] = bytes(x)
            off += size
        if bytes(b) != bytes(s):
            out[path] = bytes(b)
    p = aafrig.writefile(aafrig.newpath(), data)
    try:
        with open(p, 'rb+') as fh:
            c = CompoundFileBinary(fh, 'rb+')
            for path, d in out.items():
                c.open(path, 'w').write(d)
            c.close()
        r = aafrig.readfile(p)
    finally:
        os.unlink(p)
    b = aafref.AAF(r)
    errors = [e for e in b.errors if 'occurs twice' not in e]
    want = a.root if a.root else None
    if errors or b.root != want:
        raise RuntimeError('bad table %r: %s' % (what, errors or util.short(aafref.diff(want, b.root), 300)))
    return r


_rich = []


def rich():
    """references of every kind, in use"""
    if not _rich:
        p = aafrig.writefile(aafrig.newpath(), start())
        f = aaf2.open(p, 'r+')
        s = fresh(f)
        for op in (['ref', 'mob', 0], ['grow']):
            step(s, op)
        f.close()
        _rich.append(aafrig.readfile(p))
        os.unlink(p)
    return _rich[0]


_tables = {}


def fresh(f):
    s = S(f)
    s.have = {(k, i) for k in 'PDM' for i in (0, 1)}
    s.refs = {'one': ('D', 0), 'mob': None, 'vec': [('D', 1), ('D', 0)], 'set': [('P', 0), ('P', 1)]}
    return s


_foreign = []


def foreign():
    if not _foreign:
        f = aaf2.open()
        s = build(f)
        _foreign.append(s)
    return _foreign[0]


def step(s, op):
    k = op[0]
    f = s.f
    if k == 'add':                 # new object under a free or a taken id
        s.coll(op[1]).append(s.make(op[1], op[2]))
        s.have.add((op[1], op[2]))
        return 'added'
    if k == 'rm':
        if (op[1], op[2]) not in s.have:
            return False
        s.coll(op[1]).pop(tid(op[1], op[2]))
        s.have.discard((op[1], op[2]))
        return 'removed'
    if k == 'rekey':
        if ('M', op[1]) not in s.have or ('M', op[2]) in s.have:
            return False
        s.target('M', op[1]).mob_id = tid('M', op[2])
        s.have.discard(('M', op[1]))
        s.have.add(('M', op[2]))
        return 'rekeyed'
    if k == 'ref':
        h, i = op[1], op[2]
        K = KIND[h]
        if (K, i) not in s.have:
            return False
        s.prop(h).value = s.target(K, i)
        s.refs[h] = (K, i)
        return 'set'
    if k == 'unref':
        o, n = s.holder(op[1])
        if n not in o:
            return False
        if op[2] == 'del':
            del o[n]
        else:
            o[n].value = None
        s.refs[op[1]] = None if op[1] in ('one', 'mob') else []
        return 'unset'
    if k == 'append':
        h, i = op[1], op[2]
        if (KIND[h], i) not in s.have or (h == 'set' and (KIND[h], i) in s.refs[h]):
            return False
        s.prop(h).append(s.target(KIND[h], i))
        s.refs[h] = s.refs[h] + [(KIND[h], i)]
        return 'appended'
    if k == 'assign':
        h, ids, how = op[1], op[2], op[3]
        if any((KIND[h], i) not in s.have for i in ids):
            return False
        objs = [s.target(KIND[h], i) for i in ids]
        p = s.prop(h)
        if how == 'extend':
            if h == 'set' and set((KIND[h], i) for i in ids) & set(s.refs[h]):
                return False
            p.extend(x for x in objs)
            s.refs[h] = s.refs[h] + [(KIND[h], i) for i in ids]
        else:
            p.value = objs if how == 'list' else (x for x in objs)
            s.refs[h] = [(KIND[h], i) for i in ids]
        return 'assigned'
    if k == 'clear':
        if not s.holder(op[1])[1] in s.holder(op[1])[0]:
            return False
        s.prop(op[1]).clear()
        s.refs[op[1]] = []
        return 'cleared'
    if k == 'bad':
        h, how = op[1], op[2]
        K = KIND[h]
        x = foreign().target(K, 0) if how == 'file' else f.dictionary.lookup_datadef('sound') if K == 'P' else list(f.dictionary['ContainerDefinitions'].values())[0]
        p = s.prop(h)
        try:
            if h in ('one', 'mob'):
                p.value = x
            elif op[3] == 'append':
                p.append(x)
            else:
                p.value = [s.target(K, 0), x] if s.target(K, 0) else [x]
        except Exception:
            return 'refused'
        raise Violation('%r was accepted' % (op,))
    if k == 'grow':                # references of kinds not used so far
        s.extra += 1
        n = s.extra
        if n == 1:
            pd = f.create.PluginDef(AUID(int=HOLD.int + 77), 'pl', '')
            for name, v in (('VersionNumber', {'major': 1, 'minor': 2}), ('DefinitionObject', HOLD)):
                if pd.get(name) is not None:
                    pd[name].value = v
            f.dictionary['InterpolationDefinitions'].append(f.create.InterpolationDef(AUID(int=HOLD.int + 78), 'in', ''))
            m = f.create.SourceMob('sm')
            f.content.mobs.append(m)
            m.descriptor = f.create.CDCIDescriptor()
            for a, b in (('SampleRate', 25), ('Length', 3), ('StoredHeight', 2), ('StoredWidth', 2), ('FrameLayout', 'FullFrame'), ('VideoLineMap', [1, 2]),
                         ('ImageAspectRatio', '4/3'), ('ComponentWidth', 8), ('HorizontalSubsampling', 2)):
                m.descriptor[a].value = b
            m.descriptor['ContainerFormat'].value = f.dictionary.lookup_containerdef('AAF')
            m.descriptor['CodecDefinition'].value = f.dictionary['CodecDefinitions'][HOLD]
        elif n == 2:
            c = f.create.CompositionMob('grow')
            f.content.mobs.append(c)
            sl = c.create_timeline_slot(25)
            og = f.create.OperationGroup(f.dictionary['OperationDefinitions'][HOLD], 4)
            sl.segment = og
        else:
            return False
        return 'grown'
    if k == 'copy':                # a copy refers to the same ids
        h = op[1]
        o, n = s.holder(h)
        c = o.copy()
        s.copies += 1
        if h in ('one', 'mob'):
            m = f.create.CompositionMob('copy%d' % s.copies)
            f.content.mobs.append(m)
            sl = m.create_timeline_slot(25)
            sl.segment = c
            s.copymodel.append((('mob', m.mob_id), n, s.refs[h]))
        else:
            nid = AUID(int=HOLD.int + 1000 + s.copies)
            c.auid = nid
            f.dictionary.register_def(c)
            s.copymodel.append((('def', 'OperationDefinitions' if h == 'set' else 'CodecDefinitions', nid), n, list(s.refs[h])))
        return 'copied'
    if k == 'save':
        if s.refs['one'] is None:
            return False
        complete(s)
        f.save()
        f.manager.lru_cache = LRUCacheDict(4)
        return 'saved'
    raise ValueError(op)


def complete(s):
    """the vector is a required property: give it its (empty) value before saving"""
    for o in [s.holder('vec')[0]] + [copy_at(s, w) for w, n, v in s.copymodel if w[1] == 'CodecDefinitions']:
        if 'DataDefinitions' not in o:
            o['DataDefinitions'].value = []


def check_refs(s, p, obj, name, want, what):
    if want is None or want == []:
        if name in obj and want is None:
            raise Violation('%s: still present' % what)
    if want is None:
        if p.value is not None:
            raise Violation('%s: unset, yet yields %r' % (what, p.value))
        return
    if isinstance(want, tuple):
        t = s.target(*want)
        try:
            v = p.value
        except KeyError:
            v = None
        if v is not t:
            raise Violation('%s: yields %r, the object with id %s is %r' % (what, v, tid(*want), t))
        return
    if len(p) != len(want):
        raise Violation('%s: %d references, expected %d' % (what, len(p), len(want)))
    if all(w in s.have for w in want):
        for how, got in (('iteration', list(p)), ('value', p.value), ('items', [o for _, o in p.items()])):
            if len(got) != len(want) or any(o is not s.target(*w) for o, w in zip(got, want)):
                raise Violation('%s: %s gives %r, expected %r' % (what, how, got, want))
    else:
        try:
            got = list(p)
        except KeyError:
            pass
        else:
            raise Violation('%s: iteration gives %r, though %r is absent' % (what, got, [w for w in want if w not in s.have]))
    for i in range(3):
        w = (KIND_OF[name], i)
        key = tid(*w)
        if (key in p) != (w in want):
            raise Violation('%s: membership of %s is %r' % (what, key, key in p))
        if w in want and w in s.have:
            if p[key] is not s.target(*w) or p.get(key) is not s.target(*w):
                raise Violation('%s: lookup of %s gives %r' % (what, key, p[key]))
        elif w not in want and p.get(key, 'no') != 'no':
            raise Violation('%s: get of unreferenced %s gives something' % (what, key))


KIND_OF = {'ParametersDefined': 'P', 'DataDefinitions': 'D', 'DataDefinition': 'D', 'MobRef': 'M'}


def observe(s, why):
    for k, i in sorted(s.have):
        if s.target(k, i) is None:
            raise Violation('%s: target %s%d is gone' % (why, k, i))
    for h, want in s.refs.items():
        o, n = s.holder(h)
        check_refs(s, o[n], o, n, want, '%s: %s' % (why, h))
    for where, n, want in s.copymodel:
        o = copy_at(s, where)
        check_refs(s, o[n], o, n, want, '%s: copied %s' % (why, n))


def copy_at(s, where):
    if where[0] == 'mob':
        return list(s.f.content.mobs[where[1]].slots)[0].segment
    return s.f.dictionary[where[1]][where[2]]


def stored(path, s, twice=False):
    a = aafref.AAF(aafrig.readfile(path), skip=(0x3b02, 0x3b06)) if twice else aafrig.load(path)
    dangling = any(w not in s.have for v in s.refs.values() for w in (v if isinstance(v, list) else [v] if v else []))
    dangling = dangling or any(w not in s.have for _, _, v in s.copymodel for w in (v if isinstance(v, list) else [v] if v else []))
    if not dangling:
        a.check_weak()
        errors = [e for e in a.errors if not (twice and 'occurs twice' in e)]
        if errors:
            raise Violation('stored file: ' + '; '.join(errors[:3]))
    content = a.root[1][2][1][1][0x3b03][1][1]
    dic = a.root[1][2][1][1][0x3b04][1][1]
    mobs = content[0x1901][1]

    def seg(mid):
        return mobs[bytes(mid.bytes_le)][1][0x4403][1][0][1][0x4803][1]
    cd = {'OperationDefinitions': 0x2603, 'CodecDefinitions': 0x2607}
    pid_mobref = s.f.metadict.lookup_classdef('Filler').lookup_propertydef(P_PROP).pid
    pids = {'ParametersDefined': 0x1e09, 'DataDefinitions': 0x2302, 'DataDefinition': 0x0201, 'MobRef': pid_mobref}

    def at(where):
        return seg(where[1]) if where[0] == 'mob' else dic[cd[where[1]]][1][bytes(where[2].bytes_le)]
    todo = [(seg(HOLDMOB), 'DataDefinition', s.refs['one']), (seg(HOLDMOB), 'MobRef', s.refs['mob']),
            (dic[0x2603][1][bytes(HOLD.bytes_le)], 'ParametersDefined', s.refs['set']), (dic[0x2607][1][bytes(HOLD.bytes_le)], 'DataDefinitions', s.refs['vec'])]
    todo += [(at(w), n, v) for w, n, v in s.copymodel]
    for o, n, want in todo:
        got = o[1].get(pids[n])
        K = KIND_OF[n]
        if want is None or (want == [] and got is None):
            if got is not None:
                raise Violation('stored %s is present' % n)
            continue
        keys = [bytes(tid(*w).bytes_le) for w in (want if isinstance(want, list) else [want])]
        exp = ('W', PATHPIDS[K], KEYPID[K], keys[0]) if isinstance(want, tuple) else ('WA', PATHPIDS[K], KEYPID[K], tuple(keys))
        if got != exp:
            raise Violation('stored %s is %s, expected %s' % (n, util.short(got, 300), util.short(exp, 300)))


def run(case, tally):
    ws, what = case if len(case) == 2 else (case[0], None)
    twice = bool(what) and what[0] == 'twice'
    more = [what] if what else []
    if what:
        if len(_tables) > 4:
            _tables.clear()
        k = repr(what)
        if k not in _tables:
            _tables[k] = retable(rich(), what)
        image = _tables[k]
    else:
        image = start()
    path = None
    f = None
    cur = None
    try:
        for cur in ws:
            path = aafrig.writefile(aafrig.newpath(), image)
            f = aaf2.open(path, 'r+')
            s = fresh(f)
            if what:
                s.refs['mob'] = ('M', 0)
                s.extra = 1
                observe(s, 'as opened')
            for op in cur:
                if op[0] == 'reopen':
                    if s.refs['one'] is None:
                        break
                    complete(s)
                    f.close()
                    stored(path, s, twice)
                    f = aaf2.open(path, 'r+')
                    s.f = f
                    out = 'reopened'
                else:
                    out = step(s, op)
                if out is False:      # does not apply: the word repeats a shorter one
                    break
                observe(s, 'after %r' % (op,))
                tally.step()
                tally.state((sorted(s.have), s.refs, s.extra, [c[1:] for c in s.copymodel]))
                tally.outcome('%s %s' % (op[0], out))
            else:
                out = True
            if out is False:
                tally.count('inapplicable words')
                f.f.close()
            elif s.refs['one'] is None:
                s.prop('one').value = f.dictionary.lookup_datadef('picture')
                s.refs['one'] = ()
                f.f.close()
            else:
                complete(s)
                f.close()
                stored(path, s, twice)
                f = aaf2.open(path, 'r')
                s.f = f
                observe(s, 'after the final reopen')
                f.f.close()
            os.unlink(path)
            path = None
    except Violation as e:
        raise Violation(e.msg, e.sig, case=[[cur]] + more)
    except Exception as e:
        raise Violation('unexpected %s: %s [%s]' % (type(e).__name__, e, tb_tail(e)), 'exc:%s@%s' % (type(e).__name__, exc_site(e)), case=[[cur]] + more)
    finally:
        try:
            f.f.close()
        except Exception:
            pass
        if path:
            os.unlink(path)


def alphabet(small=False):
    ops = [['ref', 'one', 1], ['ref', 'mob', 0], ['ref', 'mob', 1], ['append', 'vec', 1], ['append', 'set', 2], ['add', 'D', 0], ['add', 'P', 2], ['add', 'M', 0],
           ['rm', 'D', 1], ['rm', 'M', 0], ['rekey', 0, 2], ['grow'], ['copy', 'one'], ['copy', 'set'], ['assign', 'vec', [0], 'list'], ['save'], ['reopen']]
    if small:
        return ops
    return ops + [['add', 'P', 0], ['add', 'D', 2], ['ref', 'one', 2], ['ref', 'mob', 2], ['rm', 'P', 0], ['unref', 'one', 'none'], ['unref', 'mob', 'del'], ['unref', 'vec', 'none'], ['unref', 'set', 'del'],
                  ['append', 'vec', 2], ['assign', 'vec', [1, 0, 1], 'gen'], ['assign', 'vec', [0, 1], 'extend'], ['assign', 'set', [1], 'list'], ['assign', 'set', [1, 0], 'gen'], ['assign', 'vec', [], 'list'],
                  ['clear', 'vec'], ['clear', 'set'], ['copy', 'vec'], ['copy', 'mob'],
                  ['bad', 'one', 'file'], ['bad', 'one', 'class'], ['bad', 'mob', 'class'], ['bad', 'vec', 'file', 'append'], ['bad', 'vec', 'class', 'value'], ['bad', 'set', 'class', 'append'], ['bad', 'set', 'file', 'value']]


def spaces(tier):
    T = tier == 'thorough'
    full, sm = alphabet(), alphabet(True)

    def pairs():
        for w in words(full, 2, 1):
            if T or len(w) == 1 or w[0] in sm or w[1] in sm:
                yield [[w]]

    def deep():
        if T:
            for w in words(sm, 3, 3):
                yield [[w]]
        else:
            core = [['ref', 'mob', 0], ['add', 'D', 0], ['rm', 'M', 0], ['rekey', 0, 2], ['grow'], ['copy', 'one'], ['append', 'vec', 1], ['reopen']]
            for w in words(core, 3, 3):
                if w[-1] not in (['reopen'],):
                    yield [[w]]
    def other():
        n = len(aafref.AAF(rich()).weak)
        later = [['ref', 'one', 1], ['append', 'vec', 1], ['assign', 'set', [1, 0], 'gen'], ['ref', 'mob', 1], ['copy', 'one'], ['copy', 'set'], ['rekey', 0, 2], ['grow']]
        for what, _, _ in tables(n):
            yield [[[]] + [[op] for op in (later if T else later[:1] + later[-1:])] + [[['reopen'], op] for op in later[:3 if T else 1]], what]
    return [Space('tables', other, run, 'files with another, equivalent reference table: every two entries swapped, every entry given twice at every place (references using the first, the last or each in turn), '
                  'an unused entry at every place; read, edited and reopened'),
            Space('pairs', pairs, run, 'every word of length 1-2 over %d operations%s' % (len(full), '' if T else ' (pairs of two rare operations left to thorough)')),
            Space('deep', deep, run, 'every word of length 3 over %d operations' % (len(sm) if T else 8))]
