"""C15: copying an object yields an equal, complete and independent object.

Objects of every concrete class of the data model (all properties, each
property alone, required ones only; with owned objects two levels deep), free,
attached or stored, are copied within their file and into files with other
extensions and clashing property numbers; vectors and sets with every pattern
of removed members, streams of boundary sizes; and words over copying back and
forth, editing, saving and reopening.  Objects are compared property by
property (by property id, so numbers may differ), live and after reopening."""
import os
import aaf2
import aaf2.properties as props
from aaf2.auid import AUID
from aaf2.mobid import MobID
from lib import aafrig, aafref, modelref, util, filler
from lib.mc import Space, Violation, words, chunks, exc_site, tb_tail

LEVEL = 'model_checking'
ASSUMPTIONS = ['objects of the data dictionary itself (class, property and type definitions) are carried, not copied (C16)',
               'all weak references of the source resolve']

ANYREF, ANYVEC, ANYPROP = 'c15c15c1-0000-4000-8000-000000000001', 'c15c15c1-0000-4000-8000-000000000002', 'c15c15c1-0000-4000-8000-000000000003'
IO_ = '0d010101-0101-0100-060e-2b3402060101'
CUSTOM, CINT, CREC = 'c15c15c1-0000-4000-8000-000000000010', 'c15c15c1-0000-4000-8000-000000000011', 'c15c15c1-0000-4000-8000-000000000012'
INT32 = '01010700-0000-0000-060e-2b3401040101'
HOLD = MobID(int=0x060a2b340101010501010f2013000000 << 128 | 0xc15)


def holder(f, n=0):
    """a mob that can own any object"""
    md = f.metadict
    md.register_typedef_model({'strongrefs': {'McAnyRef': (ANYREF, IO_)}, 'var_arrays': {'McAnyVector': (ANYVEC, ANYREF)}})
    md.lookup_classdef('Mob').register_propertydef('McAnything', ANYPROP, None, ANYVEC, True)
    k = MobID(int=HOLD.int + n)
    m = f.content.mobs.get(k)
    if m is None:
        m = f.create.MasterMob('holder')
        m.mob_id = k
        f.content.mobs.append(m)
    return m


def cx(o):
    """canonical form by property id"""
    if o is None:
        return None
    out = {}
    for p in o.properties():
        pd = p.propertydef
        if pd is None:
            raise Violation('%s has a property %04x its class does not know' % (o, p.pid), 'propertydef')
        out[str(pd.auid)] = cxp(p)
    return (str(o.class_id), out)


def cxp(p):
    f = p.format
    if f == props.SF_DATA_STREAM:
        s = p.open('r')
        return ('S', bytes(s.read()))
    if f == props.SF_STRONG_OBJECT_REFERENCE:
        return ('R', cx(p.value))
    if f == props.SF_STRONG_OBJECT_REFERENCE_VECTOR:
        return ('V', tuple(cx(x) for x in p.value))
    if f == props.SF_STRONG_OBJECT_REFERENCE_SET:
        d = {bytes(k.bytes_le): cx(x) for k, x in p.items()}
        for k, x in p.items():
            if p.get(k) is not x:
                raise Violation('member %s of %s is not found by its key' % (k, p.name), 'set')
        return ('T', d)
    if f == props.SF_WEAK_OBJECT_REFERENCE:
        return ('W', bytes(p.ref.bytes_le))
    if f in (props.SF_WEAK_OBJECT_REFERENCE_VECTOR, props.SF_WEAK_OBJECT_REFERENCE_SET):
        return ('WA', tuple(bytes(k.bytes_le) for k in p.references))
    return ('D', bytes(p.data))


def diff(a, b, where=''):
    if a is None or b is None:
        return [] if a == b else ['%s: %s / %s' % (where, aafref.short(a), aafref.short(b))]
    out = []
    if a[0] != b[0]:
        out.append('%s: class %s / %s' % (where, a[0], b[0]))
    for k in sorted(set(a[1]) | set(b[1])):
        x, y = a[1].get(k), b[1].get(k)
        if x == y:
            continue
        w = where + '.' + k[:13]
        if x is None or y is None or x[0] != y[0] or x[0] not in 'RVT':
            out.append('%s: %s / %s' % (w, aafref.short(x), aafref.short(y)))
        elif x[0] == 'R':
            out += diff(x[1], y[1], w)
        elif x[0] == 'V':
            if len(x[1]) != len(y[1]):
                out.append('%s: %d / %d members' % (w, len(x[1]), len(y[1])))
            for i, (p, q) in enumerate(zip(x[1], y[1])):
                out += diff(p, q, '%s[%d]' % (w, i))
        else:
            for kk in sorted(set(x[1]) | set(y[1])):
                out += diff(x[1].get(kk), y[1].get(kk), '%s[%s]' % (w, kk.hex()[:12]))
    return out[:6]


def same(a, b, what, sig='differs'):
    if a != b:
        raise Violation('%s: %s' % (what, '; '.join(diff(a, b))), sig)


def walk(o):
    yield o
    for p in list(o.properties()):
        f = p.format
        if f == props.SF_STRONG_OBJECT_REFERENCE:
            for x in walk(p.value):
                yield x
        elif f in (props.SF_STRONG_OBJECT_REFERENCE_VECTOR, props.SF_STRONG_OBJECT_REFERENCE_SET):
            for v in list(p.value):
                for x in walk(v):
                    yield x


def complete(src, dst, known, where):
    """every definition the copy needs is in its file, equal to the source's"""
    g, f = dst.root, src.root
    queue = [(src, dst)]
    seen = set()
    while queue:
        s, d = queue.pop()
        for o, q in zip(walk(s), walk(d)):
            if q.root is not g:
                raise Violation('%s: %s belongs to another file' % (where, q), 'root')
            if q.classdef is None or q.classdef.root is not g:
                raise Violation('%s: the class of %s is not in its file' % (where, q), 'class')
            a, b = [modelref.live_class(c) for c in (o.classdef, q.classdef)]
            if a['name'] != b['name'] or a['parent'] != b['parent'] or a['concrete'] != b['concrete']:
                raise Violation('%s: class %r became %r' % (where, a['name'], b), 'class')
            for p in q.properties():
                if p.typedef is None or p.typedef.root is not g:
                    raise Violation('%s: the type of %s.%s is not in its file' % (where, q.classdef.class_name, p.name), 'type')
                w = []
                if p.format == props.SF_WEAK_OBJECT_REFERENCE:
                    w = [(p.ref, p.value)]
                elif p.format in (props.SF_WEAK_OBJECT_REFERENCE_VECTOR, props.SF_WEAK_OBJECT_REFERENCE_SET):
                    w = list(zip(p.references, p.value))
                elif type(p.typedef).__name__ in ('TypeDefIndirect', 'TypeDefOpaque'):
                    t = AUID(bytes_le=bytes(p.data)[1:17])
                    if f.metadict.lookup_typedef(t) is not None:
                        x = g.metadict.lookup_typedef(t)
                        if x is None or modelref.live_type(x) != modelref.live_type(f.metadict.lookup_typedef(t)):
                            raise Violation('%s: the value of %s.%s has type %s, which its file does not have' % (where, q.classdef.class_name, p.name, f.metadict.lookup_typedef(t).type_name), 'indirect')
                        if p.value != o[p.name].value:
                            raise Violation('%s: %s.%s reads %r instead of %r' % (where, q.classdef.class_name, p.name, p.value, o[p.name].value), 'value')
                if p.name == 'Definition' and f.dictionary.lookup_parameterdef(p.value) is not None:
                    w = [(p.value, g.dictionary.lookup_parameterdef(p.value))]
                for k, v in w:
                    if v is None or v.root is not g:
                        raise Violation('%s: %s.%s refers to %s, which its file does not have' % (where, q.classdef.class_name, p.name, k), 'target')
                    if str(k) in seen or v.classdef.class_name in ('ClassDefinition',) or 'TypeDefinition' in v.classdef.class_name:
                        continue
                    seen.add(str(k))
                    if g is f:
                        continue
                    op = o[p.name]
                    so = f.dictionary.lookup_parameterdef(k) if p.name == 'Definition' else op.value if op.format == props.SF_WEAK_OBJECT_REFERENCE else list(op.value)[list(op.references).index(k)]
                    if str(k) not in known:
                        same(cx(so), cx(v), '%s: %s referred to by %s.%s' % (where, v, q.classdef.class_name, p.name), 'target')
                        queue.append((so, v))


def ids(f):
    out = set()
    for n in ('DataDefinitions', 'OperationDefinitions', 'ParameterDefinitions', 'InterpolationDefinitions', 'ContainerDefinitions', 'CodecDefinitions',
              'PluginDefinitions', 'TaggedValueDefinitions', 'KLVDataDefinitions'):
        if n in f.dictionary:
            out |= {str(k) for k, x in f.dictionary[n].items()}
    return out | {str(k) for k, x in f.content.mobs.items()}


_img = {}
CONFIGS = {'fresh': (True, False), 'plain': (False, False), 'clash': (True, True)}


def dest_image(cfg):
    """clash: the file's own properties use the numbers a fresh file's extension gives next"""
    if cfg not in _img:
        ext, clash = CONFIGS[cfg]
        p = aafrig.newpath()
        f = aaf2.open(p, 'w', extensions=False)
        if clash:
            c = f.metadict.lookup_classdef('InterchangeObject')
            for i in range(5):
                c.register_propertydef('Clash%d' % i, AUID(int=0xc1a50000000040008000000000000000 + i), None, INT32, True)
            f.metadict.register_extensions()
        elif ext:
            f.metadict.register_extensions()
        f.close()
        _img[cfg] = aafrig.readfile(p)
        os.unlink(p)
    return _img[cfg]


def custom(f):
    """definitions of the file's own: a class with a property of an own type, a tagged value of an own type"""
    md = f.metadict
    md.register_typedef_model({'ints': {'McTiny': (CINT, 2, True)}, 'records': {'McPoint': (CREC, (('x', CINT), ('y', CINT)))}})
    md.register_classdef('McNote', CUSTOM, 'TaggedValue', True, {'Where': ('c15c15c1-0000-4000-8000-000000000013', None, CREC, True, False),
                                                                 'More': ('c15c15c1-0000-4000-8000-000000000014', None, ANYVEC, True, False)})


def note(f, i=0):
    t = f.create.McNote()
    t['Name'].value = 'note%d' % i
    t['Value'].value = i
    t['Where'].value = {'x': i, 'y': -i}
    return t


# ---------------------------------------------------------------- every class

def run_classes(case, t):
    cs, depth, variant, state, dests = case
    try:
        classes_case(cs, depth, variant, state, dests, t)
    except Violation as e:
        raise Violation(e.msg, e.sig, case=e.case or case)
    except Exception as e:
        raise Violation('unexpected %s: %s [%s]' % (type(e).__name__, e, tb_tail(e)), 'exc:%s@%s' % (type(e).__name__, exc_site(e)), case=case)


def single(case, cs_i):
    return [[cs_i]] + list(case[1:])


def classes_case(cs, depth, variant, state, dests, t):
    path = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
    open_files = []
    try:
        f = aaf2.open(path, 'r+')
        open_files.append(f)
        h = holder(f)
        model = filler.Model()
        F = filler.Filler(f, model)
        objs = []
        for a, only in cs:
            o = F.make(a, depth, variant, only)
            objs.append(o)
            if state != 'free':
                h['McAnything'].append(o)
        if state in ('stored', 'foreign'):
            f.close()
            if state == 'foreign':
                aafrig.rename_storage(path)
            f = aaf2.open(path, 'r' if 'same' not in dests else 'r+')
            open_files.append(f)
            h = f.content.mobs[HOLD]
            objs = list(h['McAnything'])
        before = [cx(o) for o in objs]
        for dest in dests:
            if dest == 'same':
                g, p2 = f, None
                hh = holder(g, 1)
            else:
                p2 = aafrig.writefile(aafrig.newpath(), dest_image(dest))
                g = aaf2.open(p2, 'r+', extensions=CONFIGS[dest][0])
                open_files.append(g)
                hh = holder(g)
            try:
                copies = []
                for i, o in enumerate(objs):
                    c1 = [list(cs[i])]
                    known = ids(g)
                    try:
                        c = o.copy(root=g) if g is not f else o.copy()
                    except Exception as e:
                        raise Violation('copying %s (%s): %s: %s [%s]' % (o.classdef.class_name, dest, type(e).__name__, e, tb_tail(e)), 'copy:%s@%s' % (type(e).__name__, exc_site(e)), case=[c1, depth, variant, state, [dest]])
                    t.step()
                    try:
                        if type(c) is not type(o) or c.root is not g or c.dir is not None:
                            raise Violation('copy of %s is %r of %r, attached at %r' % (o, c, c.root, c.dir), 'copy')
                        same(before[i], cx(c), 'copy of %s (%s)' % (o.classdef.class_name, dest))
                        same(before[i], cx(o), 'source %s after the copy' % o.classdef.class_name, 'source')
                        complete(o, c, known, 'copy of %s (%s)' % (o.classdef.class_name, dest))
                        hh['McAnything'].append(c)
                        same(before[i], cx(c), 'attached copy of %s (%s)' % (o.classdef.class_name, dest))
                    except Violation as e:
                        e.case = [c1, depth, variant, state, [dest]]
                        raise
                    copies.append(c)
                    t.state((cs[i], depth, state, dest))
                independent(objs, copies, before, cs, (depth, variant, state, dest), t, g is f)
                if p2:
                    g.close()
                    a = aafrig.load(aafrig.readfile(p2), what='destination %s: ' % dest)
                    a.check_weak()
                    if a.errors:
                        raise Violation('destination %s: %s' % (dest, a.errors[:3]), 'stored')
                    ty, cl, errors = modelref.stored(a)
                    errors += modelref.numbers(cl, ty)
                    if errors:
                        raise Violation('destination %s: %s' % (dest, '; '.join(errors[:3])), 'stored')
            finally:
                if p2:
                    os.unlink(p2)
        if state in ('stored', 'foreign') and 'same' not in dests:
            for i, o in enumerate(objs):
                same(before[i], cx(o), 'source %s at the end' % o.classdef.class_name, 'source')
    finally:
        for x in open_files:
            try:
                x.f.close()
            except Exception:
                pass
        os.unlink(path)


def independent(objs, copies, before, cs, rest, t, samefile):
    """changes to a copy leave the source alone (and, within one file, the other way round)"""
    for i, (o, c) in enumerate(zip(objs, copies)):
        try:
            mutate(c)
            same(before[i], cx(o), 'source %s after its copy was changed' % o.classdef.class_name, 'independence')
            if o.root.mode != 'rb':
                x = o.copy()
                y = x.copy()
                mutate(x)
                same(before[i], cx(y), 'copy of %s after its source was changed' % o.classdef.class_name, 'independence')
                t.step(2)
        except Violation as e:
            e.case = [[list(cs[i])]] + list(rest[:3]) + [[rest[3]]]
            raise


def mutate(o):
    """change everything that can be changed below o"""
    for x in list(walk(o)):
        for p in list(x.properties()):
            f = p.format
            if f == props.SF_DATA_STREAM:
                s = p.open('rw')
                s.seek(0)
                s.write(b'changed!')
            elif f == props.SF_STRONG_OBJECT_REFERENCE_VECTOR:
                if len(p):
                    p.pop(0)
            elif f == props.SF_STRONG_OBJECT_REFERENCE_SET:
                for k, y in list(p.items())[:1]:
                    p.pop(k)
            elif f == props.SF_WEAK_OBJECT_REFERENCE_SET or f == props.SF_WEAK_OBJECT_REFERENCE_VECTOR:
                p.clear()
            elif p.unique or p.name in ('Definition', 'Identification'):
                pass
            elif p.propertydef.optional:
                del x[p.name]
            elif type(p.typedef).__name__ == 'TypeDefString':
                p.value = 'changed'
            elif type(p.typedef).__name__ in ('TypeDefInt',):
                p.value = 1 if p.value != 1 else 2


# ------------------------------------------------------- collections and streams

def run_struct(case, t):
    try:
        struct_case(case, t)
    except Violation as e:
        raise Violation(e.msg, e.sig, case=case)
    except Exception as e:
        raise Violation('unexpected %s: %s [%s]' % (type(e).__name__, e, tb_tail(e)), 'exc:%s@%s' % (type(e).__name__, exc_site(e)), case=case)


def struct_case(case, t):
    """vector and set of n members with a removal pattern, then additions; a stream; custom definitions"""
    n, dest, state = case
    path = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
    p2 = aafrig.writefile(aafrig.newpath(), dest_image('clash' if dest == 'same' else dest))
    f = aaf2.open(path, 'r+')
    g = None
    try:
        h = holder(f)
        custom(f)
        objs = []
        for mask in range(1 << n):
            for extra in (0, 2):
                for size in ((0, 1, 4095, 4096, 5000) if mask == 0 else (64,)):
                    m = f.create.SourceMob('m')
                    m.mob_id = MobID(int=HOLD.int + 1000 + len(objs))
                    m.descriptor = f.create.TapeDescriptor()
                    v = note(f)
                    m['McAnything'].value = []
                    m['UserComments'].value = []
                    seq = f.create.Sequence(media_kind='picture')
                    for i in range(n):
                        seq.components.append(f.create.Filler(length=i + 1))
                        m['UserComments'].append(note(f, i))
                    v['More'].value = [note(f, 10 + i) for i in range(n)]
                    m['McAnything'].append(v)
                    slot = m.create_timeline_slot(25)
                    slot.segment = seq
                    og = f.create.OperationGroup(f.create.OperationDef(AUID(int=0xc15c15c1000040008000aaaa00000000 + len(objs)), 'op') if False else opdef(f))
                    for i in range(n):
                        c = f.create.ConstantValue()
                        c['Definition'].value = AUID(int=0xc15c15c1000040008000bbbb00000000 + i)
                        c['Value'].value = i
                        og['Parameters'].append(c)
                    m['McAnything'].append(og)
                    for i in reversed(range(n)):
                        if mask >> i & 1:
                            seq.components.pop(i)
                            m['UserComments'].pop(i)
                            v['More'].pop(i)
                            og['Parameters'].pop(AUID(int=0xc15c15c1000040008000bbbb00000000 + i))
                    for i in range(extra):
                        seq.components.append(f.create.Filler(length=50 + i))
                        m['UserComments'].insert(0, note(f, 20 + i))
                        c = f.create.ConstantValue()
                        c['Definition'].value = AUID(int=0xc15c15c1000040008000cccc00000000 + i)
                        c['Value'].value = i
                        og['Parameters'].append(c)
                    tv = f.create.TaggedValue('stream', size)
                    v['More'].append(tv)
                    s = tv['TaggedValue_Stream'].open('w')
                    s.write(util.pattern(size, size))
                    objs.append(m)
        if state != 'free':
            for m in objs:
                f.content.mobs.append(m)
        keys = [m.mob_id for m in objs]
        if state in ('stored', 'foreign'):
            f.close()
            if state == 'foreign':
                aafrig.rename_storage(path)
            f = aaf2.open(path, 'r+')
            objs = [f.content.mobs[k] for k in keys]
        before = [cx(m) for m in objs]
        if dest == 'same':
            out = f
        else:
            out = g = aaf2.open(p2, 'r+', extensions=CONFIGS[dest][0])
        copies = []
        for i, m in enumerate(objs):
            known = ids(out)
            c = m.copy(root=out) if out is not f else m.copy()
            t.step()
            same(before[i], cx(c), 'copy')
            complete(m, c, known, 'copy')
            want = before[i]
            if out is f:
                c.mob_id = MobID(int=HOLD.int + 5000 + i)
                want = cx(c)
            out.content.mobs.append(c)
            same(want, cx(c), 'attached copy')
            copies.append((c.mob_id, want))
            same(before[i], cx(m), 'source', 'source')
            t.state((case, i))
        # grow the copies: new members must not collide with copied ones
        for i, (k, want) in enumerate(copies):
            c = out.content.mobs[k]
            d = c.copy()
            d['UserComments'].append(out.create.TaggedValue('x', i))
            d['UserComments'].insert(0, out.create.TaggedValue('y', i))
            names = [x['Name'].value for x in d['UserComments']]
            if names != ['y'] + [x['Name'].value for x in c['UserComments']] + ['x']:
                raise Violation('members added to a copy: %r' % names, 'grow')
            same(want, cx(c), 'copied mob after its own copy grew', 'independence')
        opath = path if out is f else p2
        out.close()
        a = aafrig.load(aafrig.readfile(opath), what='stored: ')
        a.check_weak()
        if a.errors:
            raise Violation('stored: %s' % a.errors[:3], 'stored')
        out = aaf2.open(opath, 'r', extensions=False)
        g = out
        for k, want in copies:
            same(want, cx(out.content.mobs[k]), 'copy after reopen')
        if dest == 'same':
            for i, k in enumerate(keys):
                if state != 'free':
                    same(before[i], cx(out.content.mobs[k]), 'source after reopen', 'source')
    finally:
        for x in (f, g):
            try:
                x.f.close()
            except Exception:
                pass
        os.unlink(path)
        os.unlink(p2)


OPDEF = AUID('c15c15c1-0000-4000-8000-000000000077')


def opdef(f):
    od = f.dictionary['OperationDefinitions'].get(OPDEF) if 'OperationDefinitions' in f.dictionary else None
    if od is None:
        od = f.create.OperationDef(OPDEF, 'op', '')
        od['DataDefinition'].value = f.dictionary.lookup_datadef('picture')
        od['NumberInputs'].value = 1
        od['OperationCategory'].value = 'OperationCategory_Effect'
        od['Bypass'].value = 0
        f.dictionary.register_def(od)
    return od


# ------------------------------------------------------------------- histories

class W(object):
    """two files holding mobs; the model is each mob's canonical form"""
    def __init__(self):
        self.path = [aafrig.writefile(aafrig.newpath(), aafrig.base_image()), aafrig.writefile(aafrig.newpath(), dest_image('clash'))]
        self.f = [aaf2.open(p, 'r+') for p in self.path]
        self.mobs = [{}, {}]
        f = self.f[0]
        holder(f)
        custom(f)
        m = f.create.SourceMob('m0')
        m.mob_id = self.key(0)
        m.descriptor = f.create.TapeDescriptor()
        m.comments['a'] = 1
        m['McAnything'].value = [note(f, 1)]
        m['McAnything'].append(f.create.OperationGroup(opdef(f)))
        s = f.create.TaggedValue('s', 1)
        m['McAnything'].append(s)
        s['TaggedValue_Stream'].open('w').write(b'stream data')
        slot = m.create_timeline_slot(25)
        slot.segment = f.create.SourceClip(mob_id=self.key(1), slot_id=1, length=9, media_kind='sound')
        f.content.mobs.append(m)
        self.keep(0, m)
        self.n = 1

    def key(self, i):
        return MobID(int=HOLD.int + 100 + i)

    def keep(self, i, m):
        self.mobs[i][m.mob_id] = cx(m)


HOPS = [['cp', 0, 1], ['cp', 0, 0], ['cp', 1, 0], ['cp', 1, 1], ['edit', 0, 'first'], ['edit', 1, 'first'], ['edit', 0, 'last'], ['drop', 0], ['drop', 1],
        ['save', 0], ['save', 1], ['reopen', 0], ['reopen', 1], ['free', 0, 1]]


def run_words(case, t):
    for w in case:
        try:
            one_word(w, t)
        except Violation as e:
            raise Violation(e.msg, e.sig, case=[w])
        except Exception as e:
            raise Violation('unexpected %s: %s [%s]' % (type(e).__name__, e, tb_tail(e)), 'exc:%s@%s' % (type(e).__name__, exc_site(e)), case=[w])


def one_word(w, t):
    s = W()
    try:
        for op in w:
            k, i = op[0], op[1]
            if k in ('cp', 'free', 'edit', 'drop') and not s.mobs[i]:
                t.outcome('inapplicable')
                continue
            if k in ('cp', 'free'):
                j = op[2]
                src = s.f[i].content.mobs[sorted(s.mobs[i], key=lambda m: m.int)[-1 if k == 'cp' else 0]]
                if k == 'free':
                    src = src.copy()         # an unattached copy is the source
                want = cx(src)
                known = ids(s.f[j])
                c = src.copy(root=s.f[j]) if i != j else src.copy()
                same(want, cx(c), '%s: copy' % op)
                complete(src, c, known, 'copy')
                c.mob_id = s.key(s.n)
                s.n += 1
                s.f[j].content.mobs.append(c)
                s.keep(j, c)
            elif k == 'edit':
                ks = sorted(s.mobs[i], key=lambda m: m.int)
                m = s.f[i].content.mobs[ks[0] if op[2] == 'first' else ks[-1]]
                m.name = (m.name or '') + '!'
                m.comments['c%d' % s.n] = s.n
                s.n += 1
                list(m.slots)[0].segment.length += 1
                st = list(m['McAnything'])[2]['TaggedValue_Stream'].open('rw')
                st.seek(2)
                st.write(b'%05d' % s.n)
                x = note(s.f[i], 7)
                m['McAnything'].append(x)
                s.keep(i, m)
            elif k == 'drop':
                ks = sorted(s.mobs[i], key=lambda m: m.int)
                s.f[i].content.mobs.pop(ks[-1])
                del s.mobs[i][ks[-1]]
            elif k == 'save':
                s.f[i].save()
            elif k == 'reopen':
                s.f[i].close()
                s.f[i] = aaf2.open(s.path[i], 'r+')
            t.step()
            for q in (0, 1):
                have = {m.mob_id for m in s.f[q].content.mobs.values() if m.mob_id != HOLD}
                if have != set(s.mobs[q]):
                    raise Violation('after %s: file %d holds other mobs' % (op, q), 'mobs')
                for key, want in s.mobs[q].items():
                    same(want, cx(s.f[q].content.mobs[key]), 'after %s: mob %x of file %d' % (op, key.int & 0xfff, q), 'independence')
        t.state(tuple(sorted((q, str(k), repr(v)) for q in (0, 1) for k, v in s.mobs[q].items())))
        for q in (0, 1):
            s.f[q].close()
            a = aafrig.load(aafrig.readfile(s.path[q]), what='file %d: ' % q)
            a.check_weak()
            if a.errors:
                raise Violation('file %d: %s' % (q, a.errors[:3]), 'stored')
            s.f[q] = aaf2.open(s.path[q], 'r')
            for key, want in s.mobs[q].items():
                same(want, cx(s.f[q].content.mobs[key]), 'mob %x of file %d after reopen' % (key.int & 0xfff, q), 'reopen')
    finally:
        for f in s.f:
            try:
                f.f.close()
            except Exception:
                pass
        for p in s.path:
            os.unlink(p)


def spaces(tier):
    T = tier == 'thorough'
    model = filler.Model()
    cls = model.concrete()

    def classes():
        for depth in ((0, 1, 2) if T else (0, 2)):
            for state in ('free', 'attached', 'stored', 'foreign'):
                for dests in (['same'], ['fresh', 'plain', 'clash']):
                    if not T and depth == 0 and state != 'stored':
                        continue
                    for ch in chunks([[a, None] for a in cls], 10):
                        for variant in range(3 if T else 1):
                            yield [ch, depth, variant, state, dests]

    def alone():
        pairs = []
        for a in cls:
            for pa, p in model.props(a):
                # a property is inherited by many classes: take it where it is declared (or first usable)
                if p['optional'] and p['name'] != 'ObjClass':
                    if T or pa in model.classes[a]['props'] or not [c for c in cls if pa in model.classes[c]['props'] or (c < a and pa in [x for x, _ in model.props(c)])]:
                        pairs.append([a, pa])
        for ch in chunks(pairs, 40):
            for dests in ((['same'], ['fresh', 'plain', 'clash']) if T else (['same', 'clash'], ['plain'])):
                yield [ch, 1, 1, 'stored', dests]
                if T:
                    yield [ch, 1, 2, 'free', dests]

    def structs():
        for n in range(0, 5 if T else 4):
            for dest in ('same', 'fresh', 'clash', 'plain'):
                for state in ('free', 'attached', 'stored', 'foreign'):
                    if T or (n == 3 and dest != 'fresh') or (n < 3 and (dest, state) in (('same', 'attached'), ('clash', 'stored'), ('same', 'foreign'))):
                        yield [n, dest, state]

    def hist():
        for w in words(HOPS, 3 if T else 2, 1):
            if any(o[0] in ('cp', 'free') for o in w):
                yield [w]
        if not T:
            core = [['cp', 0, 1], ['cp', 0, 0], ['cp', 1, 0], ['edit', 0, 'first'], ['edit', 1, 'first'], ['reopen', 1]]
            for w in words(core, 3, 3):
                if w[0][0] == 'cp' or (w[1][0] == 'cp' and w[0] == ['edit', 0, 'first']):
                    if len(set(map(tuple, w))) == 3:
                        yield [w]
    return [Space('classes', classes, run_classes, 'every concrete class (%d), all properties or required only, free/attached/stored x destinations' % len(cls)),
            Space('alone', alone, run_classes, 'every property on its own object x destinations'),
            Space('structures', structs, run_struct, 'collections of up to %d members x every removal pattern x additions x stream sizes x source state x destination' % (4 if T else 3)),
            Space('histories', hist, run_words, 'words of copying, editing, dropping, saving and reopening over two files')]
