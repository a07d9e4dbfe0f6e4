"""C16: extended data models persist, with consistent and unique definitions.

Words over registrations (classes, properties on new and existing classes, a
type of every category, added enumeration elements), repeated registrations,
saves and reopens with and without the built-in extensions; the reference model
is the plain description of the definitions that were registered.  After every
operation the live registry (both lookups, every attribute, the numbering) is
compared with the model, closed files are read independently, and an instance
using every registered definition is stored, read back and carried into files
that number their own properties differently.  Crafted files that lack standard
definitions and use the numbers the built-in model would give them are opened."""
import os
import aaf2
from aaf2.auid import AUID
from aaf2.mobid import MobID
from lib import aafrig, aafref, modelref, util
from lib.mc import Space, Violation, words, exc_site, tb_tail

LEVEL = 'model_checking'
ASSUMPTIONS = ['names of definitions are distinct', 'a class is registered after its parent, a property after its type',
               'new property numbers are None (dynamic), explicit local (>= 0x8000) or fixed (< 0x8000)']

STD = modelref.standard()
INT32, UINT8, INT16, UINT32, INT64 = ('01010700-0000-0000-060e-2b3401040101', '01010100-0000-0000-060e-2b3401040101', '01010600-0000-0000-060e-2b3401040101', '01010300-0000-0000-060e-2b3401040101', '01010800-0000-0000-060e-2b3401040101')
STRING, CHAR, AUIDT = '01100200-0000-0000-060e-2b3401040101', '01100100-0000-0000-060e-2b3401040101', '01030100-0000-0000-060e-2b3401040101'
TV = '0d010101-0101-3f00-060e-2b3402060101'
IO_ = '0d010101-0101-0100-060e-2b3402060101'
DATADEF = '0d010101-0101-1b00-060e-2b3402060101'
DATADEFPATH = ("0d010301-0102-0100-060e-2b3401010102", "06010104-0202-0000-060e-2b3401010102", "06010104-0505-0000-060e-2b3401010102")
DATADEF_SREF = '05020e00-0000-0000-060e-2b3401040101'
OPCAT = '02020101-0000-0000-060e-2b3401040101'
for _n, _k in (('TaggedValue', TV), ('InterchangeObject', IO_), ('DataDefinition', DATADEF)):
    assert STD['classes'][_k]['name'] == _n, _k


def uid(n):
    return 'c16c16c1-0000-4000-8000-%012x' % n


A, B, SELF, R, F, X, H = [uid(i) for i in range(1, 8)]
CLASS = {
    'A': ('McAlpha', A, 'TaggedValue', True, {'A1': (uid(0x11), None, INT32, True, False), 'A2': (uid(0x12), None, STRING, True, False)}),
    'B': ('McBeta', B, 'McAlpha', True, {'B1': (uid(0x13), 0x8123, UINT8, True, False)}),
    'R': ('McRootless', R, None, False, {'R1': (uid(0x14), None, INT32, True, False)}),
    'F': ('McFixed', F, 'TaggedValue', True, {'F1': (uid(0x15), 0x7E01, INT16, True, False)}),
    'X': ('McClash', X, 'TaggedValue', True, {'X1': (uid(0x16), 'next', INT16, True, False)}),
}
PROP = {
    'pM': ('Mob', 'McNote', uid(0x21), None, STRING, True, False),
    'pI': ('InterchangeObject', 'McAny', uid(0x22), None, INT32, True, False),
    'pX': ('TaggedValue', 'McTaken', uid(0x23), 0x8123, UINT8, True, False),
    'pT': ('TaggedValue', 'McString', uid(0x24), None, 'aafString', True, False),
}
REC = uid(0x34)
TYPE = {   # op: (category, name, id, args, description, values)
    'tInt': ('ints', 'McInt', uid(0x30), (4, True), {'kind': 'Int', 'size': 4, 'signed': True}, -77777),
    'tEnum': ('enums', 'McColor', uid(0x31), (UINT8, {0: 'McRed', 1: 'McBlue'}), {'kind': 'Enum', 'of': UINT8, 'elements': [[0, 'McRed'], [1, 'McBlue']]}, 'McBlue'),
    'tEnum2': ('enums', 'McColor', uid(0x31), (UINT8, {1: 'McBlue', 2: 'McGreen'}), {'kind': 'Enum', 'of': UINT8, 'elements': [[1, 'McBlue'], [2, 'McGreen']]}, 'McGreen'),
    'tExt': ('extenums', 'McUsage', uid(0x32), ({uid(0x3201): 'McUsage_A'},), {'kind': 'ExtEnum', 'elements': [[uid(0x3201), 'McUsage_A']]}, 'McUsage_A'),
    'tExtStd': ('extenums', 'OperationCategoryType', OPCAT, ({uid(0x3202): 'OperationCategory_Mc'},), {'kind': 'ExtEnum', 'elements': [[uid(0x3202), 'OperationCategory_Mc']]}, 'OperationCategory_Mc'),
    'tRec': ('records', 'McRec', REC, ((('a', INT32), ('b', UINT8), ('c', AUIDT)),), {'kind': 'Record', 'fields': [['a', INT32], ['b', UINT8], ['c', AUIDT]]}, {'a': -5, 'b': 200, 'c': AUID(uid(9))}),
    'tFix': ('fixed_arrays', 'McFix', uid(0x35), (INT16, 3), {'kind': 'FixedArray', 'of': INT16, 'size': 3}, [1, -2, 3]),
    'tVar': ('var_arrays', 'McVar', uid(0x36), (UINT32,), {'kind': 'VarArray', 'of': UINT32}, [7, 8, 9, 10]),
    'tSet': ('sets', 'McSet', uid(0x37), (UINT32,), {'kind': 'Set', 'of': UINT32}, {5, 6}),
    'tRen': ('renames', 'McLength', uid(0x38), (INT64,), {'kind': 'Rename', 'of': INT64}, 1 << 40),
    'tStr': ('strings', 'McText', uid(0x39), (CHAR,), {'kind': 'String', 'of': CHAR}, 'h\u00e9llo'),
    'tSR': ('strongrefs', 'McTagRef', uid(0x3a), (TV,), {'kind': 'StrongRef', 'class': TV}, 'obj'),
    'tSRV': ('var_arrays', 'McTagVector', uid(0x3b), ('05022400-0000-0000-060e-2b3401040101',), {'kind': 'VarArray', 'of': '05022400-0000-0000-060e-2b3401040101'}, 'objs'),
    'tSRS': ('sets', 'McDefSet', uid(0x3c), (DATADEF_SREF,), {'kind': 'Set', 'of': DATADEF_SREF}, 'defs'),
    'tWR': ('weakrefs', 'McDefRef', uid(0x3d), (DATADEF, DATADEFPATH), {'kind': 'WeakRef', 'class': DATADEF, 'path': list(DATADEFPATH)}, 'ref'),
    'tWRV': ('var_arrays', 'McDefRefVector', uid(0x3e), ('05010300-0000-0000-060e-2b3401040101',), {'kind': 'VarArray', 'of': '05010300-0000-0000-060e-2b3401040101'}, 'refs'),
    'tWRS': ('sets', 'McDefRefSet', uid(0x3f), ('05010300-0000-0000-060e-2b3401040101',), {'kind': 'Set', 'of': '05010300-0000-0000-060e-2b3401040101'}, 'refset'),
}
HPROP = {k: ('H' + v[1], uid(0x100 + i)) for i, (k, v) in enumerate(sorted((k, v) for k, v in TYPE.items() if k != 'tEnum2'))}
HPROP['tEnum2'] = HPROP['tEnum']
SREF_TV = [k for k, v in STD['types'].items() if v['kind'] == 'StrongRef' and v['class'] == TV][0]
TYPE['tSRV'] = TYPE['tSRV'][:3] + ((SREF_TV,), {'kind': 'VarArray', 'of': SREF_TV}, 'objs')
SELFREF, SELFVEC = uid(0x51), uid(0x52)


class S(object):
    def __init__(self, f, types, classes):
        self.f = f
        self.types, self.classes = types, classes       # expected; pid None = dynamic
        self.pids = {}                                  # numbers given so far, must not change once saved
        self.done = []                                  # registrations made, in order
        self.explicit = {}

    def taken(self, pid):
        return any(p['pid'] == pid for c in self.classes.values() for p in c['props'].values()) or pid in self.pids.values()


def prop_desc(args):
    return {'name': args[0], 'pid': args[2] if args[2] is not None and args[2] < 0x8000 else None, 'type': STRING if args[3] == 'aafString' else args[3], 'optional': args[4], 'unique': args[5]}


def byname(s, name):
    for a, c in s.classes.items():
        if c['name'] == name:
            return a
    return None


def add_class(s, name, auid, parent, concrete, props):
    """-> applied? (False: must be refused)"""
    pa = byname(s, parent) if parent else None
    resolved = {}
    for n, a in props.items():
        pid = a[1]
        if pid == 'next':
            pid = s.explicit.setdefault(a[0], s.pids.get((auid, a[0])) or next_free(s))
        resolved[n] = (a[0], pid) + a[2:]
    have = s.classes.get(auid, {'props': {}})['props']
    refuse = any(a[1] is not None and a[1] >= 0x8000 and a[0] not in have and s.taken(a[1]) for a in resolved.values())
    try:
        c = s.f.metadict.register_classdef(name, auid, parent, concrete, resolved)
    except ValueError:
        if not refuse:
            raise Violation('registering class %s is refused although its property numbers are free' % name, 'refused')
        return False
    if refuse:
        raise Violation('a property of %s is accepted with a number another property uses' % name, 'taken')
    if c.class_name != s.classes.get(auid, {'name': name})['name']:
        raise Violation('register_classdef returned %r' % c, 'returned')
    d = s.classes.setdefault(auid, {'name': name, 'parent': pa, 'concrete': concrete, 'props': {}})
    for n, a in resolved.items():
        d['props'].setdefault(a[0], prop_desc((n,) + a))
    return True


def next_free(s):
    return min([p for p in s.pids.values() if p >= 0x8000 and p > 0xf000] + [0x10000]) - 1


def applicable(s, op):
    k = op[0]
    if k == 'B' and A not in s.classes:
        return False
    if k == 'again' and not s.done:
        return False
    if k == 'noinst' and H not in s.classes and not any(c in s.classes for c in (A, B, F, X, SELF)):
        return False
    return True


def register(s, k):
    md = s.f.metadict
    if k in CLASS:
        return add_class(s, *CLASS[k])
    if k in PROP:
        cn, name, auid, pid, typ, opt, uniq = PROP[k]
        ca = byname(s, cn)
        have = s.classes[ca]['props']
        refuse = pid is not None and auid not in have and s.taken(pid)
        try:
            p = md.lookup_classdef(cn).register_propertydef(name, auid, pid, typ, opt, uniq)
        except ValueError:
            if not refuse:
                raise Violation('property %s is refused although its number is free' % name, 'refused')
            return False
        if refuse:
            raise Violation('property %s is accepted with a number another property uses' % name, 'taken')
        have.setdefault(auid, prop_desc((name, auid, pid, typ, opt, uniq)))
        if str(p.auid) != auid:
            raise Violation('register_propertydef returned %r' % p, 'returned')
        return True
    if k == 'SELF':
        add_class(s, 'McSelf', SELF, 'TaggedValue', True, {})
        md.register_typedef_model({'strongrefs': {'McSelfRef': (SELFREF, SELF)}, 'var_arrays': {'McSelfVector': (SELFVEC, SELFREF)}})
        s.types.setdefault(SELFREF, {'name': 'McSelfRef', 'kind': 'StrongRef', 'class': SELF})
        s.types.setdefault(SELFVEC, {'name': 'McSelfVector', 'kind': 'VarArray', 'of': SELFREF})
        return add_class(s, 'McSelf', SELF, 'TaggedValue', True, {'Kids': (uid(0x17), None, SELFVEC, True, False), 'Twin': (uid(0x18), None, SELFREF, True, False)})
    cat, name, auid, args, desc, val = TYPE[k]
    md.register_typedef_model({cat: {name: (auid,) + tuple(args)}})
    d = s.types.get(auid)
    if d is None:
        s.types[auid] = dict(desc, name=name)
    elif 'elements' in desc:
        s.types[auid] = d = dict(d)
        have = [e[0] for e in d['elements']]
        d['elements'] = sorted(d['elements'] + [e for e in desc['elements'] if e[0] not in have])
    hn, ha = HPROP[k]
    return add_class(s, 'McHolder', H, 'TaggedValue', True, {hn: (ha, None, auid, True, False)})


def observe(s, where, md=None, exact=True):
    md = md or s.f.metadict
    types, classes, errors = modelref.live(md)
    if errors:
        raise Violation('%s: %s' % (where, '; '.join(errors[:3])), 'registry')
    plain = modelref.without_pids(classes)
    if not exact:
        plain = {a: c for a, c in plain.items() if a in s.classes}
        types = {a: c for a, c in types.items() if a in s.types}
    d = modelref.compare(types, s.types, 'type') + modelref.compare(plain, s.classes, 'class')
    if d:
        raise Violation('%s: %s' % (where, '; '.join(d[:3])), 'definitions')
    return numbering(s, classes, where)


def numbering(s, classes, where):
    for a, c in classes.items():
        for pa, p in c['props'].items():
            was = s.pids.get((a, pa))
            if was is not None and was != p['pid']:
                raise Violation('%s: the number of %s.%s changed from %04x to %04x' % (where, c['name'], p['name'], was, p['pid']), 'renumbered')
            s.pids[(a, pa)] = p['pid']
            e = s.explicit.get(pa)
            if e is not None and p['pid'] != e:
                raise Violation('%s: %s.%s was asked to be %04x and is %04x' % (where, c['name'], p['name'], e, p['pid']), 'explicit')


ROOT = 'b3b398a5-1c90-11d4-8053-080036210804'
ROOT_TYPES = ('05022800-0000-0000-060e-2b3401040101', '05022700-0000-0000-060e-2b3401040101')


def stored(s, data, where, exact=True):
    a = aafrig.load(data, what=where + ': ')
    a.check_weak()
    if a.errors:
        raise Violation('%s: %s' % (where, a.errors[:3]), 'stored')
    types, classes, errors = modelref.stored(a)
    errors += modelref.numbers(classes, types)
    if errors:
        raise Violation('%s: %s' % (where, '; '.join(errors[:3])), 'stored')
    want_c = {k: v for k, v in s.classes.items() if k != ROOT}
    want_t = dict(s.types)
    if not exact:
        classes = {k: v for k, v in classes.items() if k in want_c}
    for k in ROOT_TYPES:
        want_t.pop(k, None)
        types.pop(k, None)
    if not exact:
        types = {k: v for k, v in types.items() if k in want_t}
    d = modelref.compare(types, want_t, 'stored type') + modelref.compare(modelref.without_pids(classes), want_c, 'stored class')
    if d:
        raise Violation('%s: %s' % (where, '; '.join(d[:3])), 'stored')
    numbering(s, classes, where)
    return a


# ---- instances

TAGS = [('McHolder', H), ('McAlpha', A), ('McBeta', B), ('McFixed', F), ('McClash', X), ('McSelf', SELF)]


def tag(f, cls, name, value=1):
    t = getattr(f.create, cls)()
    t['Name'].value = name
    d = f.metadict.lookup_typedef('aafInt32')
    t['Value'].value = value
    return t


def fill(s, f, t, have, deep=True):
    """set every property the model knows for this class; -> expected values"""
    want = {}
    cls = [a for n, a in TAGS if n == t.classdef.class_name][0]
    for a in chain(s, cls):
        for pa, p in s.classes[a]['props'].items():
            n = p['name']
            if n in ('A1', 'X1', 'F1', 'McAny', 'R1'):
                v = {'A1': -100000, 'X1': -3, 'F1': -300, 'McAny': 12345}[n]
            elif n in ('B1', 'McTaken'):
                v = 250
            elif n in ('A2', 'McString'):
                v = 'txt ' + n
            elif n == 'Kids':
                if not deep:
                    continue
                v = [tag(f, 'McSelf', 'kid%d' % i, i) for i in range(2)]
                t[n].value = v
                want[n] = ('names', ['kid0', 'kid1'])
                continue
            elif n == 'Twin':
                if not deep:
                    continue
                t[n].value = tag(f, 'McSelf', 'twin')
                want[n] = ('name', 'twin')
                continue
            elif n.startswith('H'):
                k = [k for k, v in HPROP.items() if v[1] == pa and k != 'tEnum2'][0]
                v = TYPE[k][5]
                if k == 'tEnum':
                    v = s.types[TYPE[k][2]]['elements'][-1][1]
                pic = f.dictionary.lookup_datadef('picture')
                snd = f.dictionary.lookup_datadef('sound')
                if v == 'obj':
                    t[n].value = tag(f, 'TaggedValue', 'owned')
                    want[n] = ('name', 'owned')
                    continue
                if v == 'objs':
                    t[n].value = [tag(f, 'TaggedValue', 'o%d' % i) for i in range(3)]
                    want[n] = ('names', ['o0', 'o1', 'o2'])
                    continue
                if v == 'defs':
                    t[n].value = [f.create.DataDef(AUID(uid(0x900 + i)), 'def%d' % i, '') for i in range(2)]
                    want[n] = ('ids', {uid(0x900), uid(0x901)})
                    continue
                if v == 'ref':
                    t[n].value = snd
                    want[n] = ('id', str(snd.auid))
                    continue
                if v in ('refs', 'refset'):
                    t[n].value = [pic, snd]
                    want[n] = ('idlist' if v == 'refs' else 'ids', [str(pic.auid), str(snd.auid)] if v == 'refs' else {str(pic.auid), str(snd.auid)})
                    continue
            else:
                continue
            t[n].value = v
            want[n] = ('value', v)
    return want


def chain(s, a):
    while a is not None:
        yield a
        a = s.classes[a]['parent']


def read(t, n, how):
    v = t[n].value
    if how == 'value':
        return set(v) if isinstance(v, (set, frozenset)) else list(v) if isinstance(v, (list, tuple)) or hasattr(v, '__next__') else v
    if how == 'name':
        return v['Name'].value
    if how == 'names':
        return [o['Name'].value for o in v]
    if how == 'ids':
        return {str(o.auid) for o in v}
    if how == 'idlist':
        return [str(o.auid) for o in v]
    return str(v.auid)


MOB = MobID(int=0x060a2b340101010501010f2013000000 << 128 | 0xc16)


def instances(s, f):
    """one instance of every registered concrete class on a mob -> what it must hold"""
    m = f.create.MasterMob('m')
    m.mob_id = MOB
    f.content.mobs.append(m)
    if 'McNote' in [p['name'] for p in s.classes[byname(s, 'Mob')]['props'].values()]:
        m['McNote'].value = 'note'
    want = {}
    for n, a in TAGS:
        if a in s.classes:
            t = tag(f, n, 'i' + n)
            want[n] = fill(s, f, t, s.classes[a])
            m['UserComments'].append(t)
    return want


def check_instances(s, f, want, where, note=True):
    m = f.content.mobs[MOB]
    if note and 'McNote' in [p['name'] for p in s.classes[byname(s, 'Mob')]['props'].values()]:
        if m['McNote'].value != 'note':
            raise Violation('%s: the property added to Mob reads %r' % (where, m['McNote'].value), 'instance')
    got = {t.classdef.class_name: t for t in m['UserComments']} if 'UserComments' in m else {}
    if sorted(got) != sorted(want):
        raise Violation('%s: instances of %r instead of %r' % (where, sorted(got), sorted(want)), 'instance')
    for n, vals in want.items():
        t = got[n]
        if t['Name'].value != 'i' + n or t['Value'].value != 1:
            raise Violation('%s: %s is named %r, holds %r' % (where, n, t['Name'].value, t['Value'].value), 'instance')
        for pn, (how, v) in vals.items():
            x = read(t, pn, how)
            if x != v or (how == 'value' and isinstance(v, bool) != isinstance(x, bool)):
                raise Violation('%s: %s.%s reads %r instead of %r' % (where, n, pn, x, v), 'instance')
        extra = set(p.name for p in t.properties()) - set(vals) - {'Name', 'Value', 'ObjClass'}
        if extra:
            raise Violation('%s: %s also has %r' % (where, n, sorted(extra)), 'instance')


_base = {}


def base(ext, shift=0):
    """image and expected definitions; shift: number of dynamic properties of its own"""
    k = (ext, shift)
    if k not in _base:
        p = aafrig.newpath()
        f = aaf2.open(p, 'w', extensions=ext)
        for i in range(shift):
            f.metadict.lookup_classdef('TaggedValue').register_propertydef('Shift%d' % i, uid(0x7000 + i), 0x8123 if i == 0 and shift > 2 else None, INT32, True)
        types, classes, errors = modelref.live(f.metadict)
        f.close()
        img = aafrig.readfile(p)
        os.unlink(p)
        if errors:
            raise Violation('empty file: %s' % errors[:3], 'registry')
        _base[k] = (img, types, modelref.without_pids(classes), {(a, pa): q['pid'] for a, c in classes.items() for pa, q in c['props'].items()})
    return _base[k]


def deepcopy(x):
    return {k: deepcopy(v) for k, v in x.items()} if isinstance(x, dict) else list(x) if isinstance(x, list) else x


def start(path, ext):
    img, types, classes, pids = base(ext)
    aafrig.writefile(path, img)
    s = S(aaf2.open(path, 'r+', extensions=ext), deepcopy(types), deepcopy(classes))
    s.pids = dict(pids)
    return s


def merge_standard(s):
    """reopening with extensions adds what the built-in model has and the file lacks"""
    for a, d in STD['types'].items():
        if a not in s.types:
            s.types[a] = deepcopy(d)
        elif 'elements' in d:
            have = [e[0] for e in s.types[a]['elements']]
            s.types[a]['elements'] = sorted(s.types[a]['elements'] + [e for e in d['elements'] if e[0] not in have])
    for a, d in STD['classes'].items():
        c = s.classes.setdefault(a, deepcopy(d))
        for pa, p in d['props'].items():
            c['props'].setdefault(pa, deepcopy(p))


def apply(s, op, path, t):
    k = op[0]
    if k in ('reopen', 'plain', 'save'):
        if k == 'save':
            s.f.save()
            return
        s.f.close()
        stored(s, aafrig.readfile(path), 'closed')
        s.f = aaf2.open(path, 'r+', extensions=k == 'reopen')
        if k == 'reopen':
            s.pids_before = dict(s.pids)
            merge_standard(s)
        return
    if k == 'again':
        before = aafrig.canon(s.f.metadict)
        npid = set(s.f.metadict.local_pids)
        for x in s.done:
            if not register(s, x):
                raise Violation('registering %s again is refused' % x, 'again')
        aafrig.same(before, aafrig.canon(s.f.metadict), 'registering the same definitions again changed the data model')
        if set(s.f.metadict.local_pids) != npid:
            raise Violation('registering the same definitions again used up property numbers %r' % (set(s.f.metadict.local_pids) - npid), 'again')
        return
    if register(s, k):
        if k not in s.done:
            s.done.append(k)
        t.outcome('registered')
    else:
        t.outcome('refused')


def run_word(word, ext, t):
    path = aafrig.newpath()
    s = start(path, ext)
    try:
        for i, op in enumerate(word):
            if not applicable(s, op):
                t.outcome('inapplicable')
                continue
            apply(s, op, path, t)
            t.step()
            observe(s, 'after %s' % op[0])
        apply(s, ['again'], path, t) if s.done else None
        want = instances(s, s.f)
        check_instances(s, s.f, want, 'live')
        s.f.close()
        stored(s, aafrig.readfile(path), 'closed file')
        t.state((sorted(s.done), ext, tuple(sorted(s.pids.items()))))
        # as it is in the file, without the built-in extensions
        s.f = aaf2.open(path, 'r', extensions=False)
        observe(s, 'reopened without extensions')
        check_instances(s, s.f, want, 'reopened without extensions')
        s.f.close()
        s.f = aaf2.open(path, 'r+')
        merge_standard(s)
        observe(s, 'reopened for update with extensions')
        apply(s, ['again'], path, t) if s.done else None
        check_instances(s, s.f, want, 'reopened for update')
        s.f.close()
        stored(s, aafrig.readfile(path), 'second close')
        t.step(4)
    finally:
        try:
            s.f.f.close()
        except Exception:
            pass
        os.unlink(path)


def guard(case, fn, *args):
    try:
        fn(*args)
    except Violation as e:
        raise Violation(e.msg, e.sig, case=case)
    except Exception as e:
        raise Violation('unexpected %s: %s [%s]' % (type(e).__name__, e, tb_tail(e)), 'exc:%s@%s' % (type(e).__name__, exc_site(e)), case=case)


def run(case, t):
    word, ext = case
    guard(case, run_word, word, ext, t)


# ---- carrying definitions into another file

def run_carry(case, t):
    guard(case, carry, case, t)


def carry(case, t):
    ops, how, dest = case
    path, path2 = aafrig.newpath(), aafrig.newpath()
    s = start(path, True)
    g = None
    try:
        for k in ops:
            if not applicable(s, [k]):
                return
            register(s, k)
            observe(s, 'source')
        want = instances(s, s.f)
        if how == 'stored':
            s.f.close()
            s.f = aaf2.open(path, 'r')
        before = aafrig.canon_file(s.f) if how == 'stored' else None
        ext, shift, pre = {'fresh': (True, 0, []), 'plain': (False, 0, []), 'shifted': (True, 2, []), 'clash': (True, 3, []),
                           'same': (True, 1, list(reversed(ops))), 'part': (True, 1, [k for k in ops if k in ('A', 'tEnum', 'SELF', 'tWR')] or ['pM'])}[dest]
        img, types, classes, pids = base(ext, shift)
        aafrig.writefile(path2, img)
        g = aaf2.open(path2, 'r+', extensions=ext)
        d = S(g, deepcopy(types), deepcopy(classes))
        d.pids = dict(pids)
        for k in pre:
            if not applicable(d, [k]):
                continue
            register(d, k)
            observe(d, 'destination')
        m = s.f.content.mobs[MOB].copy(root=g)
        g.content.mobs.append(m)
        # every class and type in use must have arrived
        live_t, live_c, errors = modelref.live(g.metadict)
        if errors:
            raise Violation('destination after the copy: %s' % '; '.join(errors[:3]), 'registry')
        have_c = modelref.without_pids(live_c)
        need = set()
        for n, a in TAGS:
            if n in want:
                need |= set(chain(s, a))
        need.add(byname(s, 'Mob'))
        for a in need:
            c = s.classes[a]
            if a not in have_c:
                raise Violation('class %s was not carried over' % c['name'], 'carried')
            x = have_c[a]
            if dict(x, props=0) != dict(c, props=0):
                raise Violation('class %s was carried over as %r' % (c['name'], dict(x, props=0)), 'carried')
            for pa, p in c['props'].items():
                if x['props'].get(pa) != p:
                    raise Violation('property %s.%s was carried over as %r instead of %r' % (c['name'], p['name'], x['props'].get(pa), p), 'carried')
                tt = live_t.get(p['type'])
                w = s.types.get(p['type'])
                if tt is None or {k: v for k, v in tt.items() if k != 'elements'} != {k: v for k, v in w.items() if k != 'elements'} or any(e not in tt.get('elements', []) for e in w.get('elements', [])):
                    raise Violation('type %s was carried over as %r instead of %r' % (w['name'], tt, w), 'carried')
        for a, c in live_c.items():
            for pa, p in c['props'].items():
                was = d.pids.get((a, pa))
                if was is not None and was != p['pid']:
                    raise Violation('the copy changed the number of %s.%s' % (c['name'], p['name']), 'renumbered')
        check_instances(s, g, want, 'copy')
        g.close()
        a = aafrig.load(aafrig.readfile(path2), what='destination: ')
        a.check_weak()
        if a.errors:
            raise Violation('destination: %s' % a.errors[:3], 'stored')
        st, sc, errors = modelref.stored(a)
        errors += modelref.numbers(sc, st)
        errors += modelref.compare(sc, {k: v for k, v in live_c.items() if k != ROOT}, 'stored class')
        errors += modelref.compare({k: v for k, v in st.items() if k not in ROOT_TYPES}, {k: v for k, v in live_t.items() if k not in ROOT_TYPES}, 'stored type')
        if errors:
            raise Violation('destination file: %s' % '; '.join(errors[:3]), 'stored')
        for ext in (True, False):
            g = aaf2.open(path2, 'r', extensions=ext)
            check_instances(s, g, want, 'copy after reopen')
            g.close()
        if before is not None:
            aafrig.same(before, aafrig.canon_file(s.f), 'the copy changed the source')
        t.step(6)
        t.state((tuple(ops), how, dest))
    finally:
        for x in (s.f, g):
            try:
                x.f.close()
            except Exception:
                pass
        for p in (path, path2):
            if os.path.exists(p):
                os.unlink(p)


# ---- files written by others: standard definitions missing, numbers taken

def dynamic_classes():
    """standard classes of the base model whose properties are dynamically numbered"""
    return sorted(a for a, c in STD['classes'].items() if any(p['pid'] is None for p in c['props'].values()))


def run_foreign(case, t):
    guard(case, foreign, case, t)


GENCHAR = '0e040101-0000-0000-060e-2b3402060101'


def foreign(case, t):
    drop, nums, ext = case
    path = aafrig.newpath()
    f = aaf2.open(path, 'w', extensions=False)
    try:
        md = f.metadict
        # remove what the file shall lack
        if drop == 'genericchar':
            for a, x in list(md['TypeDefinitions'].items()):
                if str(x.class_id) == GENCHAR:
                    md['TypeDefinitions'].pop(a)
            md['ClassDefinitions'].pop(AUID(GENCHAR))
        elif drop == 'leaf':
            parents = {c.parent_id for c in md.classdefs_by_auid.values() if c.parent is not None}
            for a, c in list(md['ClassDefinitions'].items()):
                if a not in parents and any(p.pid >= 0x8000 for p in c.propertydefs) and str(a) != GENCHAR:
                    md['ClassDefinitions'].pop(a)
        dropped = {}
        gone = [c for a, c in md.classdefs_by_auid.items() if a not in md['ClassDefinitions'] and c.class_name != 'Root']
        used = set(p.pid for c in md['ClassDefinitions'].values() for p in c.propertydefs if p.pid >= 0x8000)
        free = [p.pid for c in gone for p in c.propertydefs if p.pid >= 0x8000]
        # properties of its own that use those numbers
        if nums == 'conflict':
            pids = sorted(free)[:40]
        elif nums == 'swapped':
            pids = sorted(free, reverse=True)[:3]
        else:
            pids = [x for x in range(0x8000, 0x8010)]
        tv = md.lookup_classdef('TaggedValue')
        own = {}
        for p in pids:
            md.local_pids.discard(p)
            for c in gone:
                c.propertydef_by_pid.pop(p, None)
        for i, p in enumerate(pids):
            q = tv.register_propertydef('Own%d' % i, uid(0x8000 + i), p, INT32, True)
            own['Own%d' % i] = p
        m = f.create.MasterMob('m')
        m.mob_id = MOB
        f.content.mobs.append(m)
        tg = tag(f, 'TaggedValue', 'iTaggedValue')
        for i in range(len(pids)):
            tg['Own%d' % i].value = 1000 + i
        m['UserComments'].append(tg)
        f.close()
        raw = aafrig.load(aafrig.readfile(path), what='crafted file: ')
        rt, rc, errors = modelref.stored(raw)
        if errors + modelref.numbers(rc, rt):
            raise Violation('crafted file: %s' % (errors + modelref.numbers(rc, rt))[:3], 'crafted')

        def look(f, where, what):
            types, classes, errors = modelref.live(f.metadict)
            if what != 'r' or True:
                if errors and what != 'r':
                    raise Violation('%s: %s' % (where, '; '.join(errors[:3])), 'registry')
            errs = []
            for a, c in rc.items():
                got = classes[a]
                for pa, p in c['props'].items():
                    if got['props'].get(pa) != p:
                        errs.append('%s.%s is %r instead of %r' % (c['name'], p['name'], got['props'].get(pa), p))
            if errs:
                raise Violation('%s: %s' % (where, '; '.join(errs[:3])), 'definitions')
            tg = list(f.content.mobs[MOB]['UserComments'])[0]
            for i in range(len(pids)):
                if tg['Own%d' % i].value != 1000 + i:
                    raise Violation('%s: Own%d reads %r' % (where, i, tg['Own%d' % i].value), 'instance')
            return types, classes
        for mode in ('r', 'r+', 'r', 'r+'):
            f = aaf2.open(path, mode, extensions=ext)
            types, classes = look(f, 'opened %s' % mode, mode)
            t.step()
            if mode == 'r+':
                want = {k: v for k, v in STD['classes'].items()} if ext else {a: c for a, c in STD['classes'].items() if a in base(False)[2]}
                errs = []
                plain = modelref.without_pids(classes)
                for a, c in want.items():
                    if a not in plain:
                        errs.append('class %s is missing' % c['name'])
                        continue
                    for pa, p in (c['props'] if ext else base(False)[2][a]['props']).items():
                        if plain[a]['props'].get(pa) != p:
                            errs.append('%s.%s is %r' % (c['name'], p['name'], plain[a]['props'].get(pa)))
                for a, x in types.items():
                    if x['kind'] == 'GenericCharacter' and x.get('size') != STD['types'][a]['size']:
                        errs.append('type %s has size %r' % (x['name'], x.get('size')))
                if errs:
                    raise Violation('opened for update: %s' % '; '.join(errs[:3]), 'definitions')
                f.close()
                data = aafrig.readfile(path)
                a = aafrig.load(data, what='after update: ')
                st, sc, errors = modelref.stored(a)
                errors += modelref.numbers(sc, st)
                errors += modelref.compare(sc, {k: v for k, v in classes.items() if k != ROOT}, 'stored class')
                errors += modelref.compare({k: v for k, v in st.items() if k not in ROOT_TYPES}, {k: v for k, v in types.items() if k not in ROOT_TYPES}, 'stored type')
                if errors:
                    raise Violation('stored after update: %s' % '; '.join(errors[:3]), 'stored')
            else:
                f.close()
        t.state((drop, nums, ext))
    finally:
        try:
            f.f.close()
        except Exception:
            pass
        os.unlink(path)


# ---- the standard model

def run_standard(case, t):
    guard(case, standard, case, t)


def standard(case, t):
    ext, sector = case
    path = aafrig.newpath()
    with aaf2.open(path, 'w', extensions=ext, sector_size=sector) as f:
        types, classes, errors = modelref.live(f.metadict)
        if not ext:
            f.metadict.register_extensions()
            t2, c2, e2 = modelref.live(f.metadict)
            errors += e2
            for a in types:
                types[a], classes = t2[a], classes
            types, classes = t2, c2
    if errors:
        raise Violation('standard model: %s' % '; '.join(errors[:3]), 'registry')
    s = S(None, STD['types'], STD['classes'])
    d = modelref.compare(types, STD['types'], 'type') + modelref.compare(modelref.without_pids(classes), STD['classes'], 'class')
    if d:
        raise Violation('standard model: %s' % '; '.join(d[:3]), 'standard')
    stored(s, aafrig.readfile(path), 'standard model')
    os.unlink(path)
    t.step(len(types) + len(classes))
    t.state(case)


def run_numbers(case, t):
    guard(case, exhaust, case, t)


def exhaust(case, t):
    """local numbers run out cleanly; numbers in use are skipped wherever they are"""
    start_, taken = case
    f = aaf2.open(None, 'w', extensions=False)
    md = f.metadict
    md.next_pid = start_
    tv = md.lookup_classdef('TaggedValue')
    used = set(md.local_pids)
    for i, x in enumerate(taken):
        if x in used:
            continue
        tv.register_propertydef('T%d' % i, uid(0x6000 + i), x, INT32, True)
        used.add(x)
    got = []
    for i in range(12):
        want_full = not [p for p in range(0x8000, start_ + 1) if p not in used]
        try:
            p = tv.register_propertydef('N%d' % i, uid(0x6100 + i), None, INT32, True)
        except ValueError:
            if not want_full:
                raise Violation('no number left although %04x is free' % [p for p in range(0x8000, start_ + 1) if p not in used][0], 'exhausted')
            t.outcome('exhausted')
            if 'N%d' % i in [q.property_name for q in tv.propertydefs]:
                raise Violation('a property without a number was left behind', 'exhausted')
            break
        if want_full:
            raise Violation('property %d got number %04x' % (i, p.pid), 'exhausted')
        if p.pid in used or not 0x8000 <= p.pid <= 0xffff:
            raise Violation('property %d got number %04x, which is taken' % (i, p.pid), 'taken')
        used.add(p.pid)
        t.step()
    _, classes, errors = modelref.live(md)
    if errors:
        raise Violation('; '.join(errors[:3]), 'registry')
    f.f.close()
    t.state(case)


REG = ['A', 'B', 'R', 'F', 'X', 'SELF'] + sorted(PROP) + sorted(TYPE)
CORE = ['A', 'B', 'X', 'SELF', 'pX', 'pI', 'tEnum', 'tEnum2', 'tExtStd', 'tWR', 'tSRV', 'tRec']


def spaces(tier):
    T = tier == 'thorough'
    reg = [[k] for k in REG]
    core = [[k] for k in CORE]

    def single():
        for k in REG:
            for ext in (True, False):
                for mid in ([], [['save']], [['reopen']], [['plain']]):
                    if T or (ext and mid != [['save']]) or mid == [['reopen']]:
                        yield [[[k]] + mid, ext]

    def pairs():
        for i, a in enumerate(REG):
            for j, b in enumerate(REG):
                if a == b:
                    continue
                inner = a in CORE and b in CORE
                if T or inner:
                    yield [[[a], [b]], True]
                if T:
                    yield [[[a], ['reopen'], [b]], True]
                    yield [[[a], ['plain'], [b]], False]
                    yield [[[a], ['save'], [b]], False]

    def orders():
        n = len(REG)
        for i in range(0, n, 1 if T else 5):
            for d in (1, -1):
                seq = [[k] for k in (REG[i:] + REG[:i])[::d]]
                yield [seq, True]
                yield [seq[:n // 2] + [['reopen']] + seq[n // 2:], True]
                yield [seq[:n // 3] + [['plain']] + seq[n // 3:2 * n // 3] + [['save']] + seq[2 * n // 3:], False]

    def deep():
        for w in words(core, 3, 3):
            if len(set(x[0] for x in w)) == 3:
                yield [w, True]
                yield [[w[0], ['reopen'], w[1], ['plain'], w[2]], False]

    def carries():
        for how in ('live', 'stored'):
            for dest in ('fresh', 'plain', 'shifted', 'clash', 'same', 'part'):
                for k in REG:
                    if k in CLASS or k == 'SELF' or k in TYPE:
                        if not T and (how, dest) not in (('stored', 'plain'), ('stored', 'clash'), ('live', 'same')):
                            continue
                        yield [['A', 'B'] if k == 'B' else [k], how, dest]
                yield [['A', 'B', 'SELF', 'F', 'X', 'pM', 'pI'] + sorted(TYPE), how, dest]
                yield [['pT', 'pI', 'A', 'tRec', 'tVar'], how, dest]

    def foreigns():
        for drop in ('nothing', 'leaf', 'genericchar'):
            for nums in ('conflict', 'swapped', 'low'):
                for ext in (True, False):
                    yield [drop, nums, ext]

    def exhausts():
        for start_ in (0x8000, 0x8001, 0x8005, 0x800b, 0x7fff, 0x9000):
            for taken in ([], [0x8000], [0x8001, 0x8002], list(range(0x8000, 0x8006)), [0x8000, 0x8002, 0x8004], [0x9000, 0x8fff]):
                yield [start_, taken]
    sp = [Space('standard', [[e, s] for e in (True, False) for s in (512, 4096)], run_standard, 'the built-in data model against the recorded standard: extensions x sector size'),
          Space('single', single, run, 'every registration x nothing/save/reopen with/without extensions x base file with/without extensions'),
          Space('pairs', pairs, run, 'ordered pairs of registrations' if T else 'ordered pairs of the %d core registrations' % len(CORE)),
          Space('orders', orders, run, 'all registrations in one history: rotations of the list forward and backward (every ordered pair occurs), in one session, reopened in the middle, saved and reopened'),
          Space('carry', carries, run_carry, 'definitions x live or stored source x destination configurations'),
          Space('foreign', foreigns, run_foreign, 'crafted files: missing standard definitions x property numbers they would use'),
          Space('numbers', exhausts, run_numbers, 'exhaustion of the local numbers: first candidate x numbers in use')]
    if T:
        sp.append(Space('deep', deep, run, 'ordered triples of the core registrations, in one session and split over three'))
    return sp
