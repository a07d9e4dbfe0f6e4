"""C34: definition lookup is consistent by id, name, short name and object.

Every definition that a new file, a sample file and the built in data model have is looked up
by every form of key; so are keys of definitions that are not there.  Histories of registering,
replacing, renaming, removing, saving and reopening definitions of every kind are enumerated and
followed by a plain model; dictionaries with every combination of definitions are merged; and every
place that takes the key of a definition is given every form of it."""
import glob, os, uuid, itertools
import aaf2, aaf2.dictionary
from aaf2.auid import AUID
from lib import aafref, aafrig, modelref, util
from lib.mc import Space, Violation, words, exc_site, tb_tail

LEVEL = 'model_checking'
ASSUMPTIONS = ['the short name of a definition is its name without DataDef_ or ContainerDef_', 'names of types and classes are exact; where definitions share a name any of them is right',
               'an id that is not there gives nothing or is refused']
REPO = os.environ.get('MC_REPO', '/repo')

# kind: set of the dictionary, its number, lookup, class to create
KINDS = {'data': ('DataDefinitions', 0x2605, 'lookup_datadef', 'DataDef'), 'container': ('ContainerDefinitions', 0x2608, 'lookup_containerdef', 'ContainerDef'),
         'codec': ('CodecDefinitions', 0x2607, 'lookup_codecdef', 'CodecDef'), 'parameter': ('ParameterDefinitions', 0x2604, 'lookup_parameterdef', 'ParameterDef'),
         'operation': ('OperationDefinitions', 0x2603, 'lookup_operationdef', 'OperationDef'), 'interpolation': ('InterpolationDefinitions', 0x2609, 'lookup_interperlationdef', 'InterpolationDef'),
         'tagged': ('TaggedValueDefinitions', 0x260b, 'lookup_taggedvaluedef', 'TaggedValueDef')}
NAME = 0x1b02


def short(n):
    return n.replace(u'DataDef_', u'').replace(u'ContainerDef_', u'')


def forms(a):
    """the forms of an id"""
    u = a.uuid if hasattr(a, 'uuid') else uuid.UUID(str(a))
    return [('AUID', a), ('another AUID', AUID(str(a))), ('UUID', u), ('UUID from text', uuid.UUID(str(u)))]


def cases_of(n):
    """a name in every letter case"""
    out = []
    for x in (n, n.upper(), n.lower(), n.swapcase(), n.title()):
        if x not in out and x.lower() == n.lower():
            out.append(x)
    return out


def has_name(names, key):
    """definitions (ids) a name stands for"""
    k = key.lower()
    return [a for a, n in names.items() if n and (n.lower() == k or short(n).lower() == short(key).lower())]


def find(f, kind, key):
    return getattr(f.dictionary, KINDS[kind][2])(key)


def tryfind(f, kind, key):
    try:
        return find(f, kind, key)
    except Exception:
        return None


def judge(f, kind, names, t, what, objs=None, more=(), every=None):
    """names: id (AUID) -> name of the definitions that are there; looked up in every way"""
    n = 0
    for a, name in names.items():
        try:
            x = find(f, kind, a)
            for form, key in forms(a):
                y = find(f, kind, key)
                n += 1
                if y is None or y.auid != a or y is not x:
                    raise Violation('%s: %s definition %s (%s) by %s gives %s' % (what, kind, a, name, form, y), 'id')
            if x.name != name:
                raise Violation('%s: %s definition %s is named %r, should be %r' % (what, kind, a, x.name, name), 'name')
            if find(f, kind, x) is not x:
                raise Violation('%s: %s definition %s by itself gives %s' % (what, kind, a, find(f, kind, x)), 'object')
            if objs and objs.get(a) is not None and objs[a] is not x:
                raise Violation('%s: %s definition %s is not the object registered' % (what, kind, a), 'object')
            for full in ([name] if name else []):
                for key in cases_of(full) + cases_of(short(full)):
                    if not key:
                        continue
                    y = find(f, kind, key)
                    n += 1
                    if y.auid not in has_name(names, key):
                        raise Violation('%s: %s definition named %r by %r gives %s' % (what, kind, name, key, y), 'by name')
        except Violation:
            raise
        except Exception as e:
            raise Violation('%s: %s definition %s (%s): %s: %s [%s]' % (what, kind, a, name, type(e).__name__, e, tb_tail(e)), exc_site(e))
    # what is not there
    gone = [AUID(int=0x1122334455667788 << 64 | 0x99), AUID(int=0)]
    for a in gone + [x for x in more if isinstance(x, AUID)]:
        if a in names:
            continue
        for form, key in forms(a):
            y = tryfind(f, kind, key)
            n += 1
            if y is not None:
                raise Violation('%s: %s definition %s is not there, by %s it gives %s' % (what, kind, a, form, y), 'unknown')
    # parts of names are not names
    parts = set(p for nm in names.values() if nm for q in (nm, short(nm)) for p in (q[1:], q[-4:], q[-1:], q[:-1], q[:4], q[:1], q + q[-1:]) if p)
    for name in sorted(parts) + [u'', u'no such name', u'x' * 80, u'DataDef_', u'Pic', u'Picture ', u'PCM_', u'é', u'None0', u'datadefpicture'] + [x for x in more if not isinstance(x, AUID)]:
        if has_name(names if every is None else every, name):
            continue
        y = tryfind(f, kind, name)
        n += 1
        if y is not None:
            raise Violation('%s: %s definition %r is not there, gives %s' % (what, kind, name, y), 'unknown')
        try:
            find(f, kind, name)
        except Exception:
            pass
        else:
            raise Violation('%s: the unknown name %r is not refused' % (what, name), 'unknown')
    t.step(n)


def stored(root):
    """kind -> {id: name} by the independent reader"""
    d = root[1][0x0002][1][1][0x3b04][1]
    out = {}
    for kind, (prop, pid, fn, cls) in KINDS.items():
        out[kind] = {}
        if pid in d[1]:
            for k, x in d[1][pid][1].items():
                nm = x[1].get(NAME)
                out[kind][AUID(bytes_le=bytearray(k))] = nm[1].decode('utf-16-le').rstrip(u'\0') if nm else None
    return out


# ---------------------------------------------------------------- what files have

def run_file(case, t):
    """case: file, mode, options, kind"""
    name, mode, kw, kind = case
    what = '%s, mode %s %s' % (name, mode, kw)
    path = aafrig.newpath()
    try:
        if name == 'new':
            with aaf2.open(path, 'w', **kw) as f:
                pass
        else:
            aafrig.writefile(path, aafrig.readfile(os.path.join(REPO, 'tests', 'test_files', name)))
        names = stored(aafref.load(aafrig.readfile(path)).root)
        if mode == 'w':
            f = aaf2.open(path, 'w', **kw)
        else:
            f = aaf2.open(path, mode, **kw)
        try:
            for k in [kind] if kind else KINDS:
                judge(f, k, names[k], t, what)
                t.outcome('%s: %d' % (k, len(names[k])))
            t.state((name, mode, kind))
        finally:
            f.close()
    finally:
        if os.path.exists(path):
            os.unlink(path)


def run_model(case, t):
    """case: file, mode, options: types and classes"""
    name, mode, kw = case
    what = '%s, mode %s %s' % (name, mode, kw)
    path = aafrig.newpath()
    try:
        with aaf2.open(path, 'w', **kw) as f:
            if mode == 'w':
                check_model(f, t, what)
        if mode != 'w':
            with aaf2.open(path, mode, **kw) as f:
                check_model(f, t, what)
        t.state((name, mode))
    finally:
        if os.path.exists(path):
            os.unlink(path)


def check_model(f, t, what):
    std = modelref.standard()
    d = f.metadict
    n = 0
    for kind, table, fn, attr in (('type', std['types'], d.lookup_typedef, 'type_name'), ('class', std['classes'], d.lookup_classdef, 'class_name')):
        by = {}
        for a, x in table.items():
            by.setdefault(x['name'], []).append(a)
        for a, x in table.items():
            au = AUID(a)
            try:
                y = fn(au)
                if y is None and not kw_full(f):
                    continue            # of the extensions
                for form, key in forms(au) + [('text', str(au)), ('text in upper case', str(au).upper()), ('object', y)]:
                    z = fn(key)
                    n += 1
                    if z is not y or z is None or str(z.auid) != str(au):
                        raise Violation('%s: %s %s (%s) by %s gives %s' % (what, kind, x['name'], a, form, z), 'id')
                z = fn(x['name'])
                n += 1
                if z is None or str(z.auid) not in [str(AUID(b)) for b in by[x['name']]]:
                    raise Violation('%s: %s %s by name gives %s' % (what, kind, x['name'], z), 'by name')
                if getattr(y, attr) != x['name']:
                    raise Violation('%s: %s %s is named %s' % (what, kind, x['name'], getattr(y, attr)), 'name')
                if kind == 'type' and f.dictionary.lookup_typedef(x['name']) is not z:
                    raise Violation('%s: the dictionary gives another type %s' % (what, x['name']), 'by name')
            except Violation:
                raise
            except Exception as e:
                raise Violation('%s: %s %s: %s: %s [%s]' % (what, kind, x['name'], type(e).__name__, e, tb_tail(e)), exc_site(e))
        for key in (u'no such thing', u'', u'x' * 40, AUID(int=7), uuid.UUID(int=7), u'00000000-0000-0000-0000-000000000009'):
            try:
                z = fn(key)
            except Exception:
                z = None
            n += 1
            if z is not None:
                raise Violation('%s: the unknown %s %r gives %s' % (what, kind, key, z), 'unknown')
    t.step(n)
    t.outcome('types and classes')


def kw_full(f):
    return f.metadict.lookup_classdef('TIFFPictureEssenceDescriptor') is not None


# ---------------------------------------------------------------- histories

IDS = [AUID(int=0xd0d0 << 96 | i) for i in range(3)]
NAMES = [u'Alpha', u'DataDef_Alpha', u'ALPHA beta', u'ContainerDef_é', u'']


def create(f, kind, a, name):
    if kind == 'codec':
        return f.create.CodecDef(f.dictionary, a, name, u'', 'CDCIDescriptor', ['picture'])
    if kind == 'parameter':
        return f.create.ParameterDef(a, name, u'', 'Rational')
    if kind == 'operation':
        o = f.create.OperationDef(a, name, u'')
        o.media_kind = 'picture'
        o.number_inputs = 1
        o['OperationCategory'].value = 'OperationCategory_Effect'
        o['IsTimeWarp'].value = False
        o['Bypass'].value = 1
        return o
    return getattr(f.create, KINDS[kind][3])(a, name, u'')


# letters: r0..: register id 0 with the name, n: rename, d: remove, s: save, o: reopen, O: reopen read only and back
ALPHABET = ['r00', 'r01', 'r12', 'r10', 'r23', 'r04', 'n01', 'n12', 'n14', 'd0', 'd1', 's', 'o']


def run_history(case, t):
    """case: kind, words"""
    kind, ws = case
    path = aafrig.newpath()
    f = aaf2.open(path, 'w')
    prop = KINDS[kind][0]
    try:
        base = {d.auid: d.name for d in f.dictionary[prop].value} if prop in f.dictionary.keys() else {}
        for w in ws:
            what = '%s, %s' % (kind, ' '.join(w))
            one = [kind, [w]]
            names = dict(base)
            objs = {}
            try:
                for i, o in enumerate(w):
                    if o[0] == 'r':
                        a, nm = IDS[int(o[1])], NAMES[int(o[2])]
                        if nm is None or kind not in ('data', 'container') and False:
                            pass
                        d = create(f, kind, a, nm)
                        f.dictionary.register_def(d)
                        names[a] = nm
                        objs[a] = d
                    elif o[0] == 'n':
                        a, nm = IDS[int(o[1])], NAMES[int(o[2])]
                        if a in names:
                            find(f, kind, a).name = nm
                            names[a] = nm
                    elif o[0] == 'd':
                        a = IDS[int(o[1])]
                        if a in names:
                            f.dictionary[prop].pop(a)
                            del names[a]
                            objs.pop(a, None)
                    elif o == 's':
                        f.save()
                    elif o == 'o':
                        f.close()
                        got = stored(aafref.load(aafrig.readfile(path)).root)[kind]
                        if got != names:
                            raise Violation('%s: in the file are %s' % (what, sorted(map(str, set(got.items()) ^ set(names.items())))), 'stored', case=one)
                        f = aaf2.open(path, 'r+')
                        objs = {}
                    judge(f, kind, {a: n for a, n in names.items() if a in IDS or i == len(w) - 1}, t, what, objs, IDS + [n for n in NAMES if n and not has_name(names, n)], names) if kind not in ('data', 'container', 'codec') else judge_few(f, kind, names, t, what, objs)
            except Violation as v:
                v.case = one
                raise
            except Exception as e:
                raise Violation('%s: %s: %s [%s]' % (what, type(e).__name__, e, tb_tail(e)), exc_site(e), case=one)
            finally:
                # back to the start
                for a in IDS:
                    try:
                        f.dictionary[prop].pop(a)
                    except KeyError:
                        pass
            t.state((kind, tuple(sorted((str(a), n) for a, n in names.items() if a in IDS))))
            t.outcome('history')
    finally:
        f.close()
        os.unlink(path)


def judge_few(f, kind, names, t, what, objs):
    """as judge, for the kinds with many built in definitions: the ones of the history in every way, of the others a few"""
    own = {a: n for a, n in names.items() if a in IDS}
    others = [a for a in names if a not in IDS]
    few = dict(own)
    for a in others[:2] + others[-1:]:
        few[a] = names[a]
    judge(f, kind, few, t, what, objs, IDS + [n for n in NAMES if n and not has_name(names, n)], names)


# ---------------------------------------------------------------- merging

class Spec(object):
    """definitions of a file: letters of which it has"""


PARAM = [AUID(int=0xaaaa << 96 | i) for i in range(3)]
OPER = [AUID(int=0xbbbb << 96 | i) for i in range(2)]
OTHER = {k: AUID(int=0xcccc << 96 | i) for i, k in enumerate(('data', 'container', 'codec', 'interpolation', 'tagged'))}
OWNTYPE = AUID(int=0xeeee << 96 | 1)
OWNCLASS = AUID(int=0xeeee << 96 | 2)


def fill(f, spec, tag):
    """spec: letters: p q r parameters (r of a type of the file's own), 1 2 an operation with p, with p and q (and r); x: one of every other kind; c: a codec of an own class"""
    d = f.dictionary
    if 'r' in spec or 't' in spec:
        f.metadict.register_typedef_model({'enums': {u'OwnEnum': (str(OWNTYPE), 'UInt8' if False else str(f.metadict.lookup_typedef('aafUInt8').auid), {0: u'zero', 1: u'one'})}})
    params = {}
    for i, l in enumerate('pqr'):
        if l in spec:
            params[l] = f.create.ParameterDef(PARAM[i], u'param %s %s' % (l, tag), u'', 'OwnEnum' if l == 'r' else 'Rational')
            d.register_def(params[l])
    for i, l in enumerate('12'):
        if l in spec:
            o = f.create.OperationDef(OPER[i], u'operation %s %s' % (l, tag), u'')
            o.media_kind = 'picture'
            o.number_inputs = i
            o['OperationCategory'].value = 'OperationCategory_Effect'
            o['IsTimeWarp'].value = False
            o['Bypass'].value = 1
            d.register_def(o)
            for x in sorted(params):
                o.parameters.append(params[x])
    if 'x' in spec:
        for k, a in OTHER.items():
            d.register_def(create(f, k, a, u'own %s %s' % (k, tag)))
    if 'c' in spec:
        f.metadict.register_classdef(u'OwnDescriptor', OWNCLASS, 'FileDescriptor', True, {u'OwnProp': (AUID(int=0xeeee << 96 | 3), None, 'aafInt32', True, False)})
        d.register_def(f.create.CodecDef(d, AUID(int=0xeeee << 96 | 4), u'own codec %s' % tag, u'', 'OwnDescriptor', ['picture', 'sound']))


def describe(f):
    """every definition: name, and what it refers to"""
    out = {}
    for kind, (prop, pid, fn, cls) in KINDS.items():
        for x in list(f.dictionary[prop].value or []) if prop in list(f.dictionary.keys()) else []:
            v = {'name': x.name, 'description': x.description}
            if kind == 'parameter':
                v['type'] = x.typedef and str(x.typedef.auid)
            if kind == 'operation':
                v['params'] = sorted(str(p.auid) for p in x.parameters.value or [])
                v['inputs'] = x.number_inputs
                v['media'] = x.media_kind
            if kind == 'codec':
                c = x['FileDescriptorClass'].value
                v['class'] = c and str(c.auid)
                v['data'] = sorted(str(d.auid) for d in x['DataDefinitions'].value or [])
            out[(kind, str(x.auid))] = v
    return out


def run_merge(case, t):
    """case: definitions of one file, of the other, saved in between, merged again by"""
    sa, sb, saved, again = case
    what = 'a file with %r updated from one with %r%s' % (sa, sb, ', reopened in between' if saved else '')
    pa, pb = aafrig.newpath('a'), aafrig.newpath('b')
    try:
        b = aaf2.open(pb, 'w')
        fill(b, sb, 'b')
        if saved:
            b.close()
            b = aaf2.open(pb, 'r')
        a = aaf2.open(pa, 'w')
        fill(a, sa, 'a')
        if saved:
            a.close()
            a = aaf2.open(pa, 'r+')
        da, db = describe(a), describe(b)
        want = dict(db)
        want.update(da)
        for k, v in da.items():
            if k in db and k[0] == 'operation':
                want[k] = dict(v, params=sorted(set(v['params']) | set(db[k]['params'])))
        try:
            for i in range(again):
                a.dictionary.update(b.dictionary)
                got = describe(a)
                if got != want:
                    raise Violation('%s: %s' % (what, differ(want, got)), 'merge')
            if describe(b) != db:
                raise Violation('%s: the other file is changed: %s' % (what, differ(db, describe(b))), 'other')
            for kind in KINDS:
                names = {AUID(k[1]): v['name'] for k, v in want.items() if k[0] == kind}
                few = {x: n for x, n in names.items() if ' a' in n or ' b' in n}
                check_lookup(a, kind, few, names, t, what)
            a.close()
            img = aafref.load(aafrig.readfile(pa))
            if img.errors:
                raise Violation('%s: the file is not well formed: %s' % (what, '; '.join(img.errors[:3])), 'malformed')
            a = aaf2.open(pa, 'r')
            got = describe(a)
            if got != want:
                raise Violation('%s, reopened: %s' % (what, differ(want, got)), 'merge')
            for kind in KINDS:
                names = {AUID(k[1]): v['name'] for k, v in want.items() if k[0] == kind}
                few = {x: n for x, n in names.items() if ' a' in n or ' b' in n}
                check_lookup(a, kind, few, names, t, what + ', reopened')
            a.close()
            b.close()
        except Violation:
            raise
        except Exception as e:
            raise Violation('%s: %s: %s [%s]' % (what, type(e).__name__, e, tb_tail(e)), exc_site(e))
        t.step()
        t.state((sa, sb))
        t.outcome('merged')
    finally:
        for p in (pa, pb):
            if os.path.exists(p):
                os.unlink(p)


def check_lookup(f, kind, few, names, t, what):
    judge(f, kind, few, t, what, every=names)


def differ(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append('%s definition %s is %s, should be %s' % (k[0], k[1], b.get(k), a.get(k)))
    return '; '.join(out[:3])


# ---------------------------------------------------------------- places that take keys

def media_places(f):
    d = f.dictionary

    def kind_of(fn):
        return lambda key: fn(key)
    out = {}
    filler = lambda key: f.create.Filler(key, 5)
    out['Filler()'] = lambda key: filler(key).datadef
    out['Sequence()'] = lambda key: f.create.Sequence(key).datadef
    out['SourceClip()'] = lambda key: f.create.SourceClip(media_kind=key).datadef
    out['Transition()'] = lambda key: f.create.Transition(key, 5).datadef
    out['NestedScope()'] = lambda key: f.create.NestedScope(key).datadef

    def setter(key):
        x = f.create.Filler('matte', 5)
        try:
            x.media_kind = key
        except Exception:
            if x.datadef is None or x.media_kind != 'Matte':
                raise Violation('media_kind = %r is refused, but the data definition is %s then' % (key, x.datadef), 'refused')
            raise
        return x.datadef
    out['media_kind'] = setter

    def oper(key):
        o = f.create.OperationDef(AUID(int=5), u'o', u'')
        o.media_kind = 'matte'
        try:
            o.media_kind = key
        except Exception:
            if o.media_kind != 'Matte':
                raise Violation('media_kind = %r of an operation is refused, but it is %s then' % (key, o.media_kind), 'refused')
            raise
        return o.datadef
    out['OperationDef.media_kind'] = oper
    out['CodecDef()'] = lambda key: f.create.CodecDef(d, AUID(int=6), u'c', u'', 'CDCIDescriptor', [key])['DataDefinitions'].value[0]

    def group(key):
        return f.create.OperationGroup(OPER[0], 5, key).datadef
    out['OperationGroup(media_kind)'] = group

    def slot(key):
        m = f.create.MasterMob(u'm')
        return m.create_empty_sequence_slot(25, media_kind=key).segment.datadef
    out['create_empty_sequence_slot'] = slot

    def clip(key):
        m = f.create.SourceMob(u'm')
        m.descriptor = f.create.TapeDescriptor()
        m.create_timecode_slot(25, 25)
        return m.create_source_clip(m.slots[0].slot_id, 0, 5, media_kind=key).datadef
    out['create_source_clip'] = clip
    return out


def def_places(f):
    d = f.dictionary
    out = {('operation', 'OperationGroup()'): (lambda key: f.create.OperationGroup(key, 5).operation)}
    out[('operation', 'OperationGroup(,, media kind)')] = lambda key: f.create.OperationGroup(key, 5, 'picture').operation
    out[('parameter', 'ConstantValue()')] = lambda key: f.create.ConstantValue(key).parameterdef
    out[('parameter', 'VaryingValue()')] = lambda key: f.create.VaryingValue(key).parameterdef
    out[('interpolation', 'VaryingValue(, )')] = lambda key: f.create.VaryingValue(PARAM[0], key).interpolationdef
    return out


def run_places(case, t):
    """case: reopened, tag of the file"""
    reopened, = case
    path = aafrig.newpath()
    try:
        f = aaf2.open(path, 'w')
        fill(f, 'pq12x', u'a')
        if reopened:
            f.close()
            f = aaf2.open(path, 'r+')
        n = 0

        def use(kind, place, fn, key, want, what):
            try:
                got = fn(key)
            except Violation:
                raise
            except Exception as e:
                if want is not None:
                    raise Violation('%s: %s: %s: %s [%s]' % (place, what, type(e).__name__, e, tb_tail(e)), exc_site(e))
                return
            if want is None:
                raise Violation('%s: the unknown %s definition %r is not refused (it is %s)' % (place, kind, key, got), 'accepted %s' % place)
            if got is None or got.auid != want:
                raise Violation('%s: %s gives %s' % (place, what, got), 'place')

        unknown = [AUID(int=0x77 << 64), uuid.UUID(int=0x77 << 64), u'no such name', u'']
        for place, fn in media_places(f).items():
            for x in list(f.dictionary['DataDefinitions'].value):
                for form, key in forms(x.auid) + [('name', x.name), ('short name', short(x.name)), ('lower case', short(x.name).lower()), ('upper case', short(x.name).upper()), ('object', x)]:
                    use('data', place, fn, key, x.auid, '%s by %s' % (x.name, form))
                    n += 1
            for key in unknown:
                if key == u'' and place != 'media_kind':
                    continue        # none given
                use('data', place, fn, key, None, 'unknown')
                n += 1
        for (kind, place), fn in def_places(f).items():
            for x in list(f.dictionary[KINDS[kind][0]].value):
                for form, key in forms(x.auid) + [('name', x.name), ('upper case', x.name.upper()), ('object', x)]:
                    use(kind, place, fn, key, x.auid, '%s by %s' % (x.name, form))
                    n += 1
            for key in unknown[:3]:
                use(kind, place, fn, key, None, 'unknown')
                n += 1
        f.close()
        t.step(n)
        t.state(reopened)
        t.outcome('places')
    finally:
        if os.path.exists(path):
            os.unlink(path)


def history_cases(n, full):
    def cases():
        for kind in KINDS:
            ws = [list(w) for w in words(ALPHABET, n, n) if w[0][0] == 'r' and (full or w.count('o') < 2)]
            k = 40
            for i in range(0, len(ws), k):
                yield [kind, ws[i:i + k]]
    return cases


def spaces(tier):
    full = tier != 'quick'
    samples = sorted(os.path.relpath(p, os.path.join(REPO, 'tests', 'test_files')) for p in glob.glob(os.path.join(REPO, 'tests', 'test_files', '*.aaf')) + glob.glob(os.path.join(REPO, 'tests', 'test_files', 'retimes', '*.aaf')))
    N = {'extensions': False}
    specs = [''.join(x) for x in itertools.product(('', 'p', 'pq', 'pr'), ('', '1', '12'), ('', 'x'), ('', 'c'))]
    some = ['', 'p1', 'pq12', 'pr1', 'pr2xc', 'x', 'r', 'pqx1', 'c', 'q2c', '1', 't']
    return [Space('new files', lambda: ([n, m, kw, k] for n in ['new'] for m in ('w', 'r', 'r+') for kw in ({}, N) for k in KINDS), run_file, 'every definition by every form of key', cpu_limit=100),
            Space('sample files', lambda: ([n, m, kw, None] for n in (samples if full else samples[:4] + ['sector_size_512.aaf']) for m in ('r', 'r+') for kw in ({}, N)), run_file, 'every definition by every form of key', cpu_limit=100),
            Space('data model', lambda: (['new', m, kw] for m in ('w', 'r', 'r+') for kw in ({}, N)), run_model, 'every type and class by every form of key', cpu_limit=100),
            Space('histories', history_cases(3 if full else 2, full), run_history, 'words of register, rename, remove, save, reopen', cpu_limit=300),
            Space('merging', lambda: ([a, b, s, 2] for a in (specs if full else some) for b in (specs if full else some) for s in ((False, True) if full else ((some.index(a) + some.index(b)) % 2 == 0,))), run_merge, 'pairs of dictionaries', cpu_limit=60),
            Space('places', lambda: ([x] for x in (False, True)), run_places, 'every place that takes a key x every form', cpu_limit=100)]
