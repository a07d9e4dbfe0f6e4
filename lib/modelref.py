"""A file's data model as plain data, read independently from the live objects and from
the stored bytes, in the form of lib/model_snapshot.json."""
import json, os, struct, uuid
from lib import aafref

TD = {'01': 'x'}
KINDS = {'0d010101-0204-0000-060e-2b3402060101': 'Int', '0d010101-0205-0000-060e-2b3402060101': 'StrongRef',
         '0d010101-0206-0000-060e-2b3402060101': 'WeakRef', '0d010101-0207-0000-060e-2b3402060101': 'Enum',
         '0d010101-0208-0000-060e-2b3402060101': 'FixedArray', '0d010101-0209-0000-060e-2b3402060101': 'VarArray',
         '0d010101-020a-0000-060e-2b3402060101': 'Set', '0d010101-020b-0000-060e-2b3402060101': 'String',
         '0d010101-020c-0000-060e-2b3402060101': 'Stream', '0d010101-020d-0000-060e-2b3402060101': 'Record',
         '0d010101-020e-0000-060e-2b3402060101': 'Rename', '0d010101-0220-0000-060e-2b3402060101': 'ExtEnum',
         '0d010101-0221-0000-060e-2b3402060101': 'Indirect', '0d010101-0222-0000-060e-2b3402060101': 'Opaque',
         '0d010101-0223-0000-060e-2b3402060101': 'Character', '0e040101-0000-0000-060e-2b3402060101': 'GenericCharacter'}
SIZE_PROP = '0e040101-0101-0111-060e-2b3401010101'


def standard():
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'model_snapshot.json')) as f:
        return json.load(f)


def us(b):
    return str(uuid.UUID(bytes_le=bytes(b)))


def live_type(t):
    k = type(t).__name__[7:]
    d = {'name': t.type_name, 'kind': k}
    el = getattr(t, 'element_typedef', None) or getattr(t, 'renamed_typedef', None)
    if el is not None:
        d['of'] = str(el.auid)
    if k in ('Int', 'FixedArray', 'GenericCharacter'):
        d['size'] = t.size
    if k == 'Int':
        d['signed'] = t.signed
    if k in ('Enum', 'ExtEnum'):
        d['elements'] = sorted([str(a) if k == 'ExtEnum' else a, b] for a, b in t.elements.items())
    if k == 'Record':
        d['fields'] = [[n, str(m.auid)] for n, m in zip(t.member_names, t.member_types.value)]
    if k in ('StrongRef', 'WeakRef'):
        d['class'] = str(t.ref_classdef.auid)
    if k == 'WeakRef':
        d['path'] = [str(a) for a in t.target_set_path]
    return d


def live_class(c):
    return {'name': c.class_name, 'parent': str(c.parent.auid) if c.parent is not None else None, 'concrete': c.concrete,
            'props': {str(p.auid): {'name': p.property_name, 'pid': p.pid, 'type': str(p.typedef_id),
                                    'optional': p.optional, 'unique': bool(p.unique)} for p in c.propertydefs}}


def live(md):
    """the registered definitions; what the two lookups disagree about; numbers used twice"""
    errors = []
    types, classes = {}, {}
    for a, t in list(md.typedefs_by_auid.items()):
        types[str(a)] = live_type(t)
        if str(t.auid) != str(a):
            errors.append('type filed under %s has id %s' % (a, t.auid))
        if md.lookup_typedef(a) is not t or md.lookup_typedef(str(a)) is not t or md.lookup_typedef(t.type_name) is not t:
            errors.append('type %s is not found by its own name or id' % t.type_name)
    for n, t in list(md.typedefs_by_name.items()):
        if md.lookup_typedef(t.auid) is not t:
            errors.append('type name %s leads to a definition that is not registered' % n)
    for a, c in list(md.classdefs_by_auid.items()):
        classes[str(a)] = live_class(c)
        if str(c.auid) != str(a):
            errors.append('class filed under %s has id %s' % (a, c.auid))
        if md.lookup_classdef(a) is not c or md.lookup_classdef(str(a)) is not c or md.lookup_classdef(c.class_name) is not c:
            errors.append('class %s is not found by its own name or id' % c.class_name)
        for p in c.propertydefs:
            if c.get_propertydef_from_pid(p.pid) is not p:
                errors.append('number %04x of %s.%s finds %r' % (p.pid, c.class_name, p.property_name, c.get_propertydef_from_pid(p.pid)))
            if c.lookup_propertydef(p.auid) is not p:
                errors.append('property %s.%s is not found by id' % (c.class_name, p.property_name))
    for n, c in list(md.classdefs_by_name.items()):
        if md.lookup_classdef(c.auid) is not c:
            errors.append('class name %s leads to a definition that is not registered' % n)
    return types, classes, errors + numbers(classes, types)


def numbers(classes, types):
    """dynamic numbers are unique in the file, any number is unambiguous within a class"""
    errors = []
    used = {}
    for a, c in classes.items():
        for pa, p in c['props'].items():
            if p['pid'] >= 0x8000:
                if p['pid'] in used:
                    errors.append('number %04x is used by %s and by %s.%s' % (p['pid'], used[p['pid']], c['name'], p['name']))
                used[p['pid']] = '%s.%s' % (c['name'], p['name'])
            if p['type'] not in types:
                errors.append('%s.%s has the unknown type %s' % (c['name'], p['name'], p['type']))
        seen = {}
        x, depth = a, 0
        while x is not None and depth < 50:
            depth += 1
            if x not in classes:
                errors.append('class %s has the unknown ancestor %s' % (c['name'], x))
                break
            for pa, p in classes[x]['props'].items():
                if p['pid'] in seen and seen[p['pid']] != pa:
                    errors.append('class %s: number %04x means two properties' % (c['name'], p['pid']))
                seen[p['pid']] = pa
            x = classes[x]['parent']
    return errors


def text_list(b):
    s = bytes(b).decode('utf-16-le', 'surrogatepass')
    return s.split('\0')[:-1]


def auids(b):
    """AUID arrays carry no count"""
    b = bytes(b)
    return [us(b[i:i + 16]) for i in range(0, len(b), 16)]


def stored(aaf):
    """-> types, classes, errors from an aafref.AAF"""
    errors = []
    md = aaf.root[1][1][1]
    cls, typ = md[1].get(3, ('T', {}))[1], md[1].get(4, ('T', {}))[1]
    classes, types = {}, {}
    size_pid = None
    for key, o in cls.items():
        p = o[1]
        props = {}
        for pk, po in p.get(9, ('T', {}))[1].items():
            q = po[1]
            if us(q[5][1]) != us(pk):
                errors.append('property key %s holds %s' % (us(pk), us(q[5][1])))
            pid = struct.unpack('<H', q[0xd][1])[0]
            props[us(pk)] = {'name': aafref.u16z(q[6][1]), 'pid': pid, 'type': us(q[0xb][1]),
                             'optional': q[0xc][1] == b'\1', 'unique': 0xe in q and q[0xe][1] == b'\1'}
            if us(pk) == SIZE_PROP:
                size_pid = pid
        parent = us(p[8][3])
        a = us(key)
        if us(p[5][1]) != a:
            errors.append('class key %s holds %s' % (a, us(p[5][1])))
        classes[a] = {'name': aafref.u16z(p[6][1]), 'parent': None if parent == a else parent, 'concrete': p[0xa][1] == b'\1', 'props': props}
    for key, o in typ.items():
        p = o[1]
        a = us(key)
        if us(p[5][1]) != a:
            errors.append('type key %s holds %s' % (a, us(p[5][1])))
        k = KINDS.get(us(o[0]))
        d = {'name': aafref.u16z(p[6][1]), 'kind': k}
        if k == 'Int':
            d['size'], d['signed'] = p[0xf][1][0], p[0x10][1] == b'\1'
        elif k in ('Enum', 'ExtEnum'):
            if k == 'Enum':
                d['of'] = us(p[0x14][3])
                names, raw = text_list(p[0x15][1]), p[0x16][1]
                vals = list(struct.unpack('<%dq' % (len(raw) // 8), raw))
            else:
                names, vals = text_list(p[0x1f][1]), auids(p[0x20][1])
            if len(names) != len(vals):
                errors.append('%s: %d names, %d values' % (d['name'], len(names), len(vals)))
            d['elements'] = sorted([v, n] for v, n in zip(vals, names))
        elif k == 'Record':
            types_ = [us(x) for x in p[0x1c][3]]
            d['fields'] = [[n, t] for n, t in zip(text_list(p[0x1d][1]), types_)]
        elif k in ('StrongRef', 'WeakRef'):
            d['class'] = us(p[0x11 if k == 'StrongRef' else 0x12][3])
            if k == 'WeakRef':
                d['path'] = auids(p[0x13][1])
        elif k in ('FixedArray', 'VarArray', 'Set', 'String', 'Rename'):
            d['of'] = us(p[{'FixedArray': 0x17, 'VarArray': 0x19, 'Set': 0x1a, 'String': 0x1b, 'Rename': 0x1e}[k]][3])
            if k == 'FixedArray':
                d['size'] = struct.unpack('<I', p[0x18][1])[0]
        elif k == 'GenericCharacter':
            d['size'] = p[size_pid][1][0] if size_pid in p else None
        types[a] = d
    return types, classes, errors


def without_pids(classes):
    out = {}
    for a, c in classes.items():
        c = dict(c, props={k: dict(p, pid=p['pid'] if p['pid'] is not None and p['pid'] < 0x8000 else None) for k, p in c['props'].items()})
        out[a] = c
    return out


def compare(got, want, what):
    """differences of two {id: description}"""
    out = []
    for a in sorted(set(got) | set(want)):
        if a not in want:
            out.append('%s %s (%s) is there' % (what, a, got[a]['name']))
        elif a not in got:
            out.append('%s %s (%s) is missing' % (what, a, want[a]['name']))
        elif got[a] != want[a]:
            x, y = got[a], want[a]
            out.append('%s %s differs: %s' % (what, y['name'], ', '.join('%s %s / %s' % (k, aafref.short(x.get(k)), aafref.short(y.get(k))) for k in sorted(set(x) | set(y)) if x.get(k) != y.get(k))))
    return out
