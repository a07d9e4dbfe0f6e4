"""C07: a file opened read-only is never changed and refuses changes.

An object of every concrete class with every property set, and one with only
the required ones, is stored and opened for reading: every mutating operation on every property, set
and unset, and every settable attribute is attempted; so is every mutating call
of the object interface on a small project (alone, and in every ordered pair), and
every word of reading operations, copying out of the file included.  Each attempt
must raise; afterwards the objects, the data model, the storage tree, the streams
and the bytes of the file must be what they were.  The same for the container:
every word of reading operations does not write at all, every word of
mutating ones raises and leaves tree, streams and bytes alone."""
import contextlib, io, os, struct
import aaf2
import aaf2.properties as props
from aaf2 import cfb as cfbmod
from aaf2.auid import AUID
from aaf2.mobid import MobID
from aaf2.misc import LinearInterp, ConstantInterp
from aaf2.rational import AAFRational
from lib import aafrig, aafref, util, filler, modelref, cfbrig
from lib.mc import Space, Violation, words, exc_site, tb_tail
from checks import c17_rejected_edits as c17

LEVEL = 'model_checking'
ASSUMPTIONS = ['objects that are not part of the file (just created ones) may be made for a file opened for reading; they are not judged',
               'the methods the library uses on itself (attach, detach, add_pid_entry ...) are not attempts through the object interface']


def tree(f):
    out = []
    for root, dirs, files in f.cfb.walk():
        out.append((root.path(), str(root.class_id), sorted(d.name for d in dirs), sorted((s.name, s.byte_size) for s in files)))
    return sorted(out)


def state(f):
    return aafrig.canon_file(f), tree(f)


def where_differs(a, b):
    if a[0] != b[0]:
        return '; '.join(aafref.diff(a[0], b[0]))
    return str([x for x in zip(a[1], b[1]) if x[0] != x[1]][:1] or (len(a[1]), len(b[1])))


# ---------------------------------------------------------------- every property of every class

def build(classes, depth):
    p = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
    with aaf2.open(p, 'r+') as f:
        h = c17.holder(f)
        F = filler.Filler(f, filler.Model())
        h['McAnything'].value = [F.make(a, depth, i % 5) for i, a in enumerate(classes)]
    return p


def prop_edits(o, p, blank):
    """mutating operations on property p of the stored object o: (name, function)"""
    name = p.name
    val = [None]
    try:
        val = p.value
    except Exception:
        pass
    is_set = p.pid in o.property_entries

    def assign(v):
        o[name].value = v

    yield 'value=same', lambda: assign(val if val is not None else 1)
    if is_set:
        yield 'value=None', lambda: assign(None)
        yield 'del', lambda: o.__delitem__(name)
    for v in (7, 'text', [1, 2], AAFRational('3/2'), b'\x01\x02', AUID(int=5), True, {'a': 1}, []):
        yield 'value=%r' % (v,), (lambda v: lambda: assign(v))(v)
    if isinstance(p, props.StreamProperty):
        yield "open('w')", lambda: o[name].open('w')
        yield "open('rw')", lambda: o[name].open('rw')
        if is_set:
            yield "read stream.write", lambda: o[name].open('r').write(b'xyz' * 3000)
            yield "read stream.truncate", lambda: o[name].open('r').truncate(1)
            yield "read stream.truncate(0)", lambda: o[name].open('r').truncate(0)
            yield "read stream.truncate(more)", lambda: o[name].open('r').truncate(20000)
    if isinstance(p, (props.StrongRefVectorProperty, props.StrongRefSetProperty, props.WeakRefArrayProperty)):
        n = len(p)
        x = blank() if not isinstance(p, props.WeakRefArrayProperty) else (val[0] if val else blank())
        if x is not None:
            yield 'append', lambda: o[name].append(x)
            yield 'extend', lambda: o[name].extend([x])
            yield 'value=[x]', lambda: assign([x])
            if isinstance(p, props.StrongRefVectorProperty):
                yield 'insert', lambda: o[name].insert(0, x)
        if n:
            yield 'clear', lambda: o[name].clear()
            if isinstance(p, props.StrongRefVectorProperty):
                yield 'pop(0)', lambda: o[name].pop(0)
                yield 'pop(-1)', lambda: o[name].pop(-1)
                if x is not None:
                    yield 'setitem', lambda: o[name].__setitem__(0, x)
                yield 'reverse', lambda: assign(list(val)[::-1])
            elif isinstance(p, props.StrongRefSetProperty):
                k = next(iter(p.references))
                yield 'pop(key)', lambda: o[name].pop(k)
                yield 'swap', lambda: o[name].swap_unique_key(k, type(k)(int=k.int ^ 9))
    elif isinstance(p, props.StrongRefProperty):
        x = blank()
        if x is not None:
            yield 'value=blank', lambda: assign(x)


def attribute_edits(o):
    for c in type(o).__mro__:
        for n, v in sorted(vars(c).items()):
            if isinstance(v, property) and v.fset is not None:
                try:
                    cur = getattr(o, n)
                except Exception:
                    cur = None
                for x in [cur, None, 3, 'x', AAFRational('5/1'), AUID(int=77), MobID(int=77)]:
                    if x is None and (cur is None or cur == []):
                        continue       # nothing to remove
                    yield '%s=%r' % (n, x), (lambda n, x: lambda: setattr(o, n, x))(n, x)


def attempt(fn, what, o):
    before = aafrig.canon(o)
    try:
        r = fn()
    except NameError:
        raise
    except Exception:
        pass
    else:
        raise Violation('%s is accepted by a file opened for reading (gives %s)' % (what, type(r).__name__), 'accepted')
    after = aafrig.canon(o)
    if after != before:
        raise Violation('%s is refused but changes the object: %s' % (what, '; '.join(aafref.diff(before, after))), 'changed')


def run_class(case, t):
    """case: classes, depth, mode"""
    classes, depth, mode = case
    path = build(classes, depth)
    raw = aafrig.readfile(path)
    try:
        m = filler.Model()
        with aaf2.open(path, mode) as f:
            F = filler.Filler(f, m)
            s0 = state(f)
            h = f.content.mobs[c17.HOLD]
            for a, o in zip(classes, list(h['McAnything'])):
                def bad(v):
                    v.msg = '%s: %s' % (m.classes[a]['name'], v.msg)
                    v.case = [[a], depth, mode]
                    return v
                for pa, p in m.props(a):
                    if p['name'] == 'ObjClass':
                        continue
                    ref = m.target(p['type'])

                    def blank():
                        if not ref:
                            return None
                        c = m.simplest(ref[1])
                        return F.blank(c) if c else None
                    for what, fn in list(prop_edits(o, o[p['name']], blank)):
                        t.step()
                        try:
                            attempt(fn, '%s %s' % (p['name'], what), o)
                        except Violation as v:
                            raise bad(v)
                for what, fn in list(attribute_edits(o)):
                    t.step()
                    try:
                        attempt(fn, what, o)
                    except Violation as v:
                        raise bad(v)
            s1 = state(f)
            if s1 != s0:
                if len(classes) > 1:
                    for a in classes:
                        run_class([[a], depth, mode], t)
                raise Violation('refused edits change the file as read: %s' % where_differs(s0, s1), 'state')
            t.state(s0[0])
        if aafrig.readfile(path) != raw:
            raise Violation('the file was changed', 'bytes')
    finally:
        os.unlink(path)


def class_cases(batch, modes, depths):
    def gen():
        cs = filler.Model().concrete()
        for d in depths:
            for mode in modes:
                for i in range(0, len(cs), batch):
                    yield [cs[i:i + batch], d, mode]
    return gen


# ---------------------------------------------------------------- calls on a project

def mobid(i):
    return MobID(int=0x060a2b340101010501010f2013000000 << 128 | 0xc070000 | i)


NEWDEF = AUID(int=0xc07c07c0000040008000000000000001)


def project_image():
    if 'img' not in _cache:
        p = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
        with aaf2.open(p, 'r+') as f:
            c = f.create
            src = c.SourceMob('src')
            src.mob_id = mobid(1)
            src.descriptor = c.PCMDescriptor(**{})
            d = src.descriptor
            d['ContainerFormat'].value = f.dictionary.lookup_containerdef('AAF')
            for k, v in (('Length', 100), ('SampleRate', 25), ('BlockAlign', 2), ('AverageBPS', 96000), ('Channels', 1), ('QuantizationBits', 16), ('AudioSamplingRate', 48000)):
                d[k].value = v
            d['Locator'].append(c.NetworkLocator())
            d['Locator'].value[0]['URLString'].value = 'file:///x'
            tl = src.create_empty_slot(25, 'sound')
            tl.segment.length = 100
            f.content.mobs.append(src)
            e = c.EssenceData()
            e.mob = src
            f.content.essencedata.append(e)
            e.open('w').write(util.pattern(1, 9000))
            e2 = c.EssenceData()
            e2.mob_id = mobid(9)
            f.content.essencedata.append(e2)
            e2.open('w').write(util.pattern(2, 300))
            mas = c.MasterMob('mas')
            mas.mob_id = mobid(2)
            f.content.mobs.append(mas)
            ms = mas.create_timeline_slot(25)
            ms.segment = src.create_source_clip(tl.slot_id, 0, 100)
            comp = c.CompositionMob('comp')
            comp.mob_id = mobid(3)
            comp.usage = 'Usage_TopLevel'
            f.content.mobs.append(comp)
            seq = comp.create_sound_slot(25)
            seq.segment.components.append(mas.create_source_clip(ms.slot_id, 0, 50))
            seq.segment.components.append(c.Filler('sound', 10))
            op = c.OperationDef(NEWDEF, 'op', '')
            op.media_kind = 'sound'
            op['IsTimeWarp'].value = False
            op['Bypass'].value = 0
            op['NumberInputs'].value = 1
            op['OperationCategory'].value = 'OperationCategory_Effect'
            pd = c.ParameterDef(AUID(int=NEWDEF.int + 1), 'level', '', 'Rational')
            f.dictionary.register_def(pd)
            op.parameters.append(pd)
            f.dictionary.register_def(op)
            g = c.OperationGroup(op, 10, 'sound')
            g.segments.append(c.Filler('sound', 10))
            lin = c.InterpolationDef(LinearInterp, 'LinearInterp', '')
            f.dictionary.register_def(lin)
            f.dictionary.register_def(c.InterpolationDef(ConstantInterp, 'ConstantInterp', ''))
            v = c.VaryingValue(pd, lin)
            v.add_keyframe(0, 1)
            v.add_keyframe(5, 2)
            g.parameters.append(v)
            seq.segment.components.append(g)
            comp.comments['a'] = 1
            comp.comments['b'] = 'text'
            comp.create_timeline_slot(25).segment = c.Timecode(25, length=10)
            f.metadict.register_classdef('McThing', AUID(int=NEWDEF.int + 2), 'InterchangeObject', True, {'McText': (AUID(int=NEWDEF.int + 3), None, 'aafString', True)})
        _cache['img'] = aafrig.readfile(p)
        os.unlink(p)
    return _cache['img']


_cache = {}


class H(object):
    """handles on the project"""
    def __init__(self, f):
        self.f = f
        m = f.content.mobs
        self.src, self.mas, self.comp = m[mobid(1)], m[mobid(2)], m[mobid(3)]
        self.slot = self.comp.slots[0]
        self.seq = self.slot.segment
        self.clip, self.fill, self.group = list(self.seq.components)
        self.vary = list(self.group.parameters)[0]
        self.op = self.group.operation
        self.ess = f.content.essencedata[mobid(1)]
        self.ess2 = f.content.essencedata[mobid(9)]
        self.desc = self.src.descriptor
        self.tc = self.comp.slots[1].segment
        self.pd = f.dictionary.lookup_parameterdef('level')

    def blank(self, name, **kw):
        """a new object of the file, as far as a file opened for reading makes one"""
        F = filler.Filler(self.f, filler.Model())
        return F.blank(F.model.byname[name])


def wav():
    p = util.spath('c07.wav')
    if not os.path.exists(p):
        import wave
        w = wave.open(p, 'wb')
        w.setnchannels(1)
        w.setsampwidth(2)
        w.setframerate(48000)
        w.writeframes(util.pattern(3, 4800))
        w.close()
    return p


def donor():
    """a project in another file, to take objects from"""
    if 'donor' not in _cache:
        p = aafrig.writefile(aafrig.newpath('donor'), project_image())
        with aaf2.open(p, 'r+') as f:
            for i in (1, 2, 3):
                f.content.mobs[mobid(i)].mob_id = mobid(100 + i)
            f.content.mobs[mobid(103)].comments['c'] = 3
            f.dictionary.register_def(f.create.ParameterDef(AUID(int=NEWDEF.int + 31), 'other level', '', 'Rational'))
            f.metadict.register_typedef_model({'renames': {'McType': (str(AUID(int=NEWDEF.int + 15)), '01010500-0000-0000-060e-2b3401040101')}})
            f.metadict.register_classdef('McOther', AUID(int=NEWDEF.int + 12), 'InterchangeObject', True, {'McOtherText': (AUID(int=NEWDEF.int + 13), None, 'aafString', True)})
        _cache['donor'] = p
        _cache['dpid'] = os.getpid()
    return _cache['donor']


def with_donor(fn):
    with aaf2.open(donor(), 'r') as g:
        return fn(g)


CALLS = {
    'mobs.append': lambda h: h.f.content.mobs.append(h.blank('MasterMob')),
    'mobs.append created': lambda h: h.f.content.mobs.append(h.f.create.MasterMob('x')),
    'mobs.pop': lambda h: h.f.content.mobs.pop(mobid(2)),
    'mobs.clear': lambda h: h.f.content.mobs.clear(),
    'mobs.value=[]': lambda h: setattr(h.f.content['Mobs'], 'value', []),
    'del Mobs': lambda h: h.f.content.__delitem__('Mobs'),
    'essence.pop': lambda h: h.f.content.essencedata.pop(mobid(9)),
    'essence.append': lambda h: h.f.content.essencedata.append(h.blank('EssenceData')),
    'mob_id': lambda h: setattr(h.mas, 'mob_id', mobid(77)),
    'essence mob_id': lambda h: setattr(h.ess2, 'mob_id', mobid(77)),
    'essence mob': lambda h: setattr(h.ess2, 'mob', h.mas),
    'swap key': lambda h: h.f.content.mobs.swap_unique_key(mobid(2), mobid(78)),
    'name': lambda h: setattr(h.comp, 'name', 'new'),
    'usage': lambda h: setattr(h.comp, 'usage', None),
    'comment new': lambda h: h.comp.comments.__setitem__('new', 5),
    'comment old': lambda h: h.comp.comments.__setitem__('a', 5),
    'comment other type': lambda h: h.comp.comments.__setitem__('b', 9),
    'comments.append': lambda h: h.comp.comments.append(h.blank('TaggedValue')),
    'comment on other mob': lambda h: h.mas.comments.__setitem__('new', 5),
    'comment encode': lambda h: h.comp.comments.get('a').encode_value('more', h.f.metadict.lookup_typedef('aafString')),
    'comment value': lambda h: setattr(h.comp.comments.get('a'), 'value', 'more'),
    'comments del': lambda h: h.comp.__delitem__('UserComments'),
    'slot timeline': lambda h: h.comp.create_timeline_slot(25),
    'slot empty': lambda h: h.comp.create_empty_sequence_slot(25),
    'slot picture': lambda h: h.comp.create_picture_slot(),
    'slot sound': lambda h: h.comp.create_sound_slot(),
    'slot source': lambda h: h.src.create_empty_slot(25),
    'slot timecode': lambda h: h.src.create_timecode_slot(25, 25),
    'slot tape': lambda h: h.src.create_tape_slots('t', 25, 25),
    'slot id': lambda h: setattr(h.slot, 'slot_id', 44),
    'slot name': lambda h: setattr(h.slot, 'name', 'n'),
    'slot pop': lambda h: h.comp.slots.pop(0),
    'slot append': lambda h: h.comp.slots.append(h.blank('TimelineMobSlot')),
    'slot segment': lambda h: setattr(h.slot, 'segment', h.blank('Filler')),
    'slot rate': lambda h: setattr(h.slot, 'edit_rate', 30),
    'slot origin': lambda h: setattr(h.slot, 'origin', 3),
    'components.append': lambda h: h.seq.components.append(h.blank('Filler')),
    'components.insert': lambda h: h.seq.components.insert(1, h.blank('Filler')),
    'components.pop': lambda h: h.seq.components.pop(1),
    'components.clear': lambda h: h.seq.components.clear(),
    'components[0]=': lambda h: h.seq.components.__setitem__(0, h.blank('Filler')),
    'components reversed': lambda h: setattr(h.seq['Components'], 'value', list(h.seq.components)[::-1]),
    'length': lambda h: setattr(h.fill, 'length', 11),
    'media_kind': lambda h: setattr(h.fill, 'media_kind', 'picture'),
    'clip mob': lambda h: setattr(h.clip, 'mob', h.src),
    'clip mob_id': lambda h: setattr(h.clip, 'mob_id', mobid(1)),
    'clip slot': lambda h: setattr(h.clip, 'slot', h.src.slots[0]),
    'clip slot_id': lambda h: setattr(h.clip, 'slot_id', 5),
    'clip start': lambda h: setattr(h.clip, 'start', 5),
    'create_source_clip': lambda h: h.mas.create_source_clip(1, 0, 10),
    'create_essence': lambda h: h.src.create_essence(25, 'sound'),
    'descriptor': lambda h: setattr(h.src, 'descriptor', h.blank('TapeDescriptor')),
    'descriptor length': lambda h: setattr(h.desc, 'length', 7),
    'locator append': lambda h: h.desc['Locator'].append(h.blank('NetworkLocator')),
    'import audio': lambda h: h.src.import_audio_essence(wav()),
    'import audio offline': lambda h: h.src.import_audio_essence(wav(), offline=True),
    'import audio master': lambda h: h.mas.import_audio_essence(wav()),
    'import dnx': lambda h: h.src.import_dnxhd_essence(wav(), 25),
    'link wav': lambda h: h.f.content.link_external_wav({'format': {'filename': wav(), 'duration': '0.05', 'tags': {}}, 'streams': [{'codec_type': 'audio', 'sample_rate': '48000', 'duration_ts': 2400, 'channels': 1, 'bits_per_sample': 16, 'index': 0}]}),
    'ama': lambda h: h.f.content.create_ama_link(wav(), {'format': {'filename': wav(), 'format_name': 'wav', 'duration': '0.05', 'tags': {}}, 'streams': [{'codec_type': 'audio', 'codec_name': 'pcm_s16le', 'sample_rate': '48000', 'duration_ts': 2400, 'channels': 1, 'bits_per_sample': 16, 'sample_fmt': 's16', 'index': 0, 'start_time': '0', 'nb_frames': '2400'}]}),
    'timecode start': lambda h: setattr(h.tc, 'start', 9),
    'timecode fps': lambda h: setattr(h.tc, 'fps', 30),
    'timecode drop': lambda h: setattr(h.tc, 'drop', True),
    'operation': lambda h: setattr(h.group, 'operation', h.op),
    'segments.append': lambda h: h.group.segments.append(h.blank('Filler')),
    'parameters.append': lambda h: h.group.parameters.append(h.blank('ConstantValue')),
    'parameters.pop': lambda h: h.group.parameters.pop(h.vary.auid),
    'keyframe': lambda h: h.vary.add_keyframe(3, 9),
    'keyframe same': lambda h: h.vary.add_keyframe(5, 9),
    'point value': lambda h: setattr(h.vary.pointlist[0], 'value', 9),
    'point time': lambda h: setattr(h.vary.pointlist[0], 'time', 9),
    'point pop': lambda h: h.vary.pointlist.pop(0),
    'interpolation': lambda h: setattr(h.vary, 'interpolationdef', h.f.dictionary.lookup_interperlationdef('ConstantInterp')),
    'register_def': lambda h: h.f.dictionary.register_def(h.blank('DataDefinition')),
    'register_def created': lambda h: h.f.dictionary.register_def(h.f.create.DataDef(AUID(int=NEWDEF.int + 5), 'dd', '')),
    'def name': lambda h: setattr(h.op, 'name', 'other'),
    'def auid': lambda h: setattr(h.op, 'auid', AUID(int=3)),
    'def description': lambda h: setattr(h.op, 'description', 'other'),
    'op parameters': lambda h: h.op.parameters.clear(),
    'op inputs': lambda h: setattr(h.op, 'number_inputs', 4),
    'op datadef': lambda h: setattr(h.op, 'media_kind', 'picture'),
    'param typedef': lambda h: setattr(h.pd, 'typedef', 'Int32'),
    'dictionary.update': lambda h: with_donor(lambda g: h.f.dictionary.update(g.dictionary)),
    'dictionary clear': lambda h: h.f.dictionary['OperationDefinitions'].clear(),
    'register_classdef': lambda h: h.f.metadict.register_classdef('McNew', AUID(int=NEWDEF.int + 22), 'InterchangeObject', True, {'McNewText': (AUID(int=NEWDEF.int + 23), None, 'aafString', True)}),
    'register_propertydef': lambda h: h.f.metadict.lookup_classdef('Mob').register_propertydef('McNewProp', AUID(int=NEWDEF.int + 24), None, 'aafString', True),
    'register_propertydef new class': lambda h: h.f.metadict.lookup_classdef('McThing').register_propertydef('McNewProp', AUID(int=NEWDEF.int + 25), None, 'aafString', True),
    'register type': lambda h: h.f.metadict.register_typedef_model({'renames': {'McRename': (str(AUID(int=NEWDEF.int + 26)), '01010500-0000-0000-060e-2b3401040101')}}),
    'register extensions': lambda h: h.f.metadict.register_extensions(),
    'register element': lambda h: h.f.metadict.lookup_typedef('UsageType').register_element('McUsage', AUID(int=NEWDEF.int + 27)),
    'register enum element': lambda h: h.f.metadict.lookup_typedef('ColorSitingType').register_element('McSiting', 77),
    'register external type': lambda h: with_donor(lambda g: h.f.metadict.register_external_typedef(g.metadict.lookup_typedef('McType'))),
    'register external class': lambda h: with_donor(lambda g: h.f.metadict.register_external_classdef(g.metadict.lookup_classdef('McOther'))),
    'copy in': lambda h: with_donor(lambda g: h.f.content.mobs.append(g.content.mobs[mobid(103)].copy(root=h.f))),
    'copy within': lambda h: h.f.content.mobs.append(h.comp.copy()),
    'copy essence within': lambda h: h.f.content.essencedata.append(h.ess.copy()),
    'essence write': lambda h: h.ess.open('w'),
    'essence rw': lambda h: h.ess.open('rw'),
    'essence read write': lambda h: h.ess.open('r').write(b'abc'),
    'essence read write long': lambda h: h.ess.open('r').write(b'abc' * 5000),
    'essence read truncate': lambda h: h.ess.open('r').truncate(5),
    'essence2 read truncate 0': lambda h: h.ess2.open('r').truncate(0),
    'essence2 read write': lambda h: h.ess2.open('r').write(b'abc' * 5000),
    'del name': lambda h: h.comp.__delitem__('Name'),
    'header': lambda h: setattr(h.f.header['LastModified'], 'value', __import__('datetime').datetime(2001, 1, 1)),
    'header delete': lambda h: h.f.header.__delitem__('OperationalPattern'),
    'header idlist': lambda h: h.f.header['IdentificationList'].pop(0),
    'new property': lambda h: setattr(h.f.header['EssenceContainers'], 'value', [AUID(int=4)]),
    'cfb touch': lambda h: h.f.cfb.root.touch('new'),
    'cfb makedir': lambda h: h.f.cfb.makedir('/new'),
    'cfb makedirs': lambda h: h.f.cfb.makedirs('/new/er'),
    'cfb remove': lambda h: h.f.cfb.remove('/properties'),
    'cfb rmtree': lambda h: h.f.cfb.rmtree('/Header-2'),
    'cfb move': lambda h: h.f.cfb.move('/Header-2', '/Other'),
    'cfb open w': lambda h: h.f.cfb.open('/properties', 'w'),
    'cfb open rw': lambda h: h.f.cfb.open('/properties', 'rw'),
    'cfb open new': lambda h: h.f.cfb.open('/new', 'w'),
}
NEED = {'header delete', 'essence read write'}


def project(mode='r'):
    p = aafrig.writefile(aafrig.newpath(), project_image())
    return p, aaf2.open(p, mode)


def snapshot(f):
    e = []
    for x in f.content.essencedata:
        e.append(bytes(x.open('r').read()))
    return state(f) + (modelref.live(f.metadict), e)


def run_calls(case, t):
    """case: lists of calls, mode; each list on a freshly opened file unless joined"""
    for word in case[0]:
        p, f = project(case[1])
        raw = aafrig.readfile(p)
        try:
            h = H(f)
            s0 = snapshot(f)
            for name in word:
                t.step()
                try:
                    r = CALLS[name](h)
                except NameError:
                    raise
                except Exception:
                    pass
                else:
                    raise Violation('%s: %r is accepted by a file opened for reading (gives %s)' % (word, name, type(r).__name__), 'accepted', case=[[word], case[1]])
            s1 = snapshot(f)
            if s1 != s0:
                if len(word) > 2:
                    for n in word:
                        run_calls([[[n]], case[1]], t)
                raise Violation('%s is refused but changes what the file reads as: %s' % (word, where_differs(s0, s1) if s0[:2] != s1[:2] else 'data model' if s0[2] != s1[2] else 'essence'), 'changed', case=[[word], case[1]])
            f.close()
            if aafrig.readfile(p) != raw:
                raise Violation('%s changes the file' % (word,), 'bytes', case=[[word], case[1]])
            t.state(tuple(word))
        finally:
            f.f.close()
            os.unlink(p)


def call_cases(mode, batch):
    def gen():
        names = sorted(CALLS)
        one = [[n] for n in names]
        for i in range(0, len(one), batch):
            yield [one[i:i + batch], mode]
        yield [[names, names[::-1], names[::2] + names[1::2]], mode]
    return gen


def pair_cases(mode):
    def gen():
        names = sorted(CALLS)
        for a in names:
            yield [[[a, b] for b in names if a != b], mode]
    return gen


# ---------------------------------------------------------------- reading histories

def r_dump(h):
    with contextlib.redirect_stdout(io.StringIO()):
        h.f.dump()


def r_copy(h):
    q = aafrig.writefile(aafrig.newpath('q'), aafrig.base_image())
    try:
        with aaf2.open(q, 'r+') as g:
            for m in list(h.f.content.mobs):
                g.content.mobs.append(m.copy(root=g))
            for e in list(h.f.content.essencedata):
                g.content.essencedata.append(e.copy(root=g))
    finally:
        os.unlink(q)


def r_update(h):
    q = aafrig.writefile(aafrig.newpath('q'), aafrig.base_image())
    try:
        with aaf2.open(q, 'r+') as g:
            for c in h.f.metadict.classdefs_by_auid.values():
                g.metadict.register_external_classdef(c)
    finally:
        os.unlink(q)


def r_essence(h):
    for e in h.f.content.essencedata:
        s = e.open('r')
        s.read(10)
        s.seek(-5, 2)
        s.read()
        s.seek(3)
        s.read(5000)


def r_unset(h):
    """properties that are not set are asked for"""
    for o in (h.comp, h.mas, h.src, h.slot, h.seq, h.clip, h.fill, h.group, h.desc, h.op, h.f.header, h.f.content, h.f.dictionary):
        for k in o.allkeys():
            p = o.get(k)
            if k in ('ObjClass',):
                continue
            p.value
            if isinstance(p, (props.StrongRefVectorProperty, props.StrongRefSetProperty, props.WeakRefArrayProperty)):
                len(p)
                list(p)
            if isinstance(p, props.StreamProperty) and k not in o:
                try:
                    p.open('r')
                except Exception:
                    pass
    h.mas.comments.get('none')
    list(h.mas.comments.items())


def r_lookup(h):
    d = h.f.dictionary
    for fn, n in ((d.lookup_datadef, 'picture'), (d.lookup_containerdef, 'AAF'), (d.lookup_parameterdef, 'level'), (d.lookup_operationdef, 'op'), (d.lookup_typedef, 'aafString')):
        fn(n)
    for x in list(h.f.content.toplevel()) + list(h.f.content.mastermobs()):
        list(x.dependant_mobs())
    h.vary.value_at(2)
    list(h.seq.positions())
    h.seq.component_at_time(55)
    list(h.clip.walk())


def r_walk(h):
    for o, s in h.f.root.walk_references():
        o.keys(), o.allkeys(), repr(o)
        for p in o.properties():
            repr(p), p.name, p.value


def r_overread(h):
    s = h.ess.open('r')
    try:
        s.seek(20000)
    except Exception:
        pass
    s.read(5)


def r_copy_within(h):
    try:
        h.comp.copy()
    except Exception:
        pass


READS = {'dump': r_dump, 'copy out': r_copy, 'copy model': r_update, 'essence': r_essence, 'unset': r_unset, 'lookup': r_lookup, 'walk': r_walk, 'overread': r_overread,
         'copy': r_copy_within, 'save': lambda h: h.f.save(), 'tree': lambda h: tree(h.f), 'validate': lambda h: h.f.cfb.validate_directory_structure()}


def run_reads(case, t):
    for word in case[0]:
        p, f = project(case[1])
        raw = aafrig.readfile(p)
        try:
            s0 = snapshot(f)
            h = H(f)
            for name in word:
                t.step()
                try:
                    READS[name](h)
                except Exception as e:
                    raise Violation('%s: %s: %s: %s [%s]' % (word, name, type(e).__name__, e, tb_tail(e)), 'exc:%s@%s' % (type(e).__name__, exc_site(e)), case=[[word], case[1]])
            s1 = snapshot(f)
            if s1 != s0:
                raise Violation('%s changes what the file reads as: %s' % (word, where_differs(s0, s1) if s0[:2] != s1[:2] else 'data model' if s0[2] != s1[2] else 'essence'), 'changed', case=[[word], case[1]])
            f.close()
            if aafrig.readfile(p) != raw:
                raise Violation('%s changes the file' % (word,), 'bytes', case=[[word], case[1]])
            t.state(tuple(word))
        finally:
            f.f.close()
            os.unlink(p)


def read_cases(n, mode):
    def gen():
        for a in sorted(READS):
            yield [[[a] + list(w) for w in words(sorted(READS), n - 1)], mode]
    return gen


# ---------------------------------------------------------------- the container

class Watch(util.MemFile):
    """a file that may be written but should not be"""
    def __init__(self, data):
        super(Watch, self).__init__(data)
        w = self.write
        self.writes = 0

        def write(b):
            self.writes += 1
            return w(b)
        self.write = write

    def truncate(self, size=None):
        self.writes += 1
        return super(Watch, self).truncate(size)


def containers():
    if 'cfb' not in _cache:
        out = []
        for ss in (512, 4096):
            for many in (0, 1):
                f = util.MemFile(b'')
                c = cfbmod.CompoundFileBinary(f, 'wb+', ss)
                c.makedirs('/a/b/c')
                for i in range(300 if many else 3):
                    c.makedir('/a/b/d%d' % i)
                for name, n in (('/a/s', 100), ('/a/b/t', 5000), ('/e', 0), ('/a/b/c/u', 4096), ('/m', 4095)):
                    c.open(name, 'w').write(util.pattern(n, n))
                c.remove('/a/b/d1')
                c.close()
                out.append(f.getvalue())
        _cache['cfb'] = out
    return _cache['cfb']


def cstate(c):
    out = []
    for root, dirs, files in c.walk():
        out.append((root.path(), str(root.class_id), root.flags, sorted(d.name for d in dirs), sorted((s.name, bytes(s.open('r').read())) for s in files)))
    return sorted(out)


def c_seek(c):
    s = c.open('/a/s')
    try:
        s.seek(9000)
    except Exception:
        pass
    s = c.open('/a/b/t')
    s.seek(4990)
    s.read()


CREADS = {
    'list': lambda c: [c.listdir(), c.listdir('/a'), c.listdir_dict('/a/b')],
    'walk': lambda c: list(c.walk()),
    'walk up': lambda c: list(c.walk(topdown=False)),
    'find': lambda c: [c.find('/a/b/c/u'), c.find('/nothing'), c.find('/a/b/d2')],
    'exists': lambda c: [c.exists('/a/b/c'), c.exists('/x/y')],
    'read': lambda c: [c.open('/a/s').read(), c.open('/a/b/t').read(), c.open('/e').read()],
    'seek': c_seek,
    'validate': lambda c: c.validate_directory_structure(),
    'get': lambda c: [c.root.get('a').get('b').get('c').listdir(), c.root.get('none')],
    'fields': lambda c: [(e.name, e.type, e.color, e.flags, e.class_id, e.create_time, e.modify_time, e.sector_id, e.byte_size, e.path(), e.isdir(), e.isfile()) for r, d, s in c.walk() for e in d + s],
}
CEDITS = {
    'makedir': lambda c: c.makedir('/n'),
    'makedirs': lambda c: c.makedirs('/n/m'),
    'makedir class': lambda c: c.makedir('/a/n', AUID(int=3)),
    'touch': lambda c: c.root.get('a').touch('n'),
    'remove': lambda c: c.remove('/a/s'),
    'remove dir': lambda c: c.remove('/a/b/d2'),
    'remove entry': lambda c: c.remove(c.find('/m')),
    'rmtree': lambda c: c.rmtree('/a'),
    'move': lambda c: c.move('/a/b/t', '/t'),
    'move dir': lambda c: c.move('/a/b/c', '/c'),
    'rename': lambda c: c.move('/a/s', '/a/zz'),
    'open w': lambda c: c.open('/a/s', 'w'),
    'open w large': lambda c: c.open('/a/b/t', 'w'),
    'open rw': lambda c: c.open('/a/b/t', 'rw'),
    'open new': lambda c: c.open('/a/new', 'w'),
    'open new rw': lambda c: c.open('/new', 'rw'),
    'entry open w': lambda c: c.find('/a/b/t').open('w'),
    'entry makedir': lambda c: c.find('/a').makedir('n'),
    'write': lambda c: c.open('/a/b/t', 'r').write(b'abc'),
    'write mini': lambda c: c.open('/a/s', 'r').write(b'abc'),
    'write more': lambda c: c.open('/a/s', 'r').write(bytes(9000)),
    'write empty stream': lambda c: c.open('/e', 'r').write(b'abc'),
    'truncate': lambda c: c.open('/a/b/t', 'r').truncate(10),
    'truncate 0': lambda c: c.open('/a/s', 'r').truncate(0),
    'truncate more': lambda c: c.open('/a/s', 'r').truncate(9999),
}


def run_container(case, t):
    """case: image number, words, medium"""
    img = containers()[case[0]]
    for word in case[1]:
        path = util.spath('c07-%d' % os.getpid())
        if case[2] == 'watch':
            f = Watch(img)
            mode = 'rb'
        else:
            with open(path, 'wb') as g:
                g.write(img)
            f = open(path, 'rb')
            mode = 'r'
        try:
            c = cfbmod.CompoundFileBinary(f, mode)
            s0 = cstate(c)
            for name in word:
                t.step()
                if name in CREADS:
                    CREADS[name](c)
                    continue
                try:
                    r = CEDITS[name](c)
                except NameError:
                    raise
                except Exception:
                    pass
                else:
                    raise Violation('%s: %r is accepted by a container opened for reading' % (word, name), 'accepted', case=[case[0], [word], case[2]])
            s1 = cstate(c)
            if s0 != s1:
                raise Violation('%s changes what the container reads as: %s' % (word, str([x for x in zip(s0, s1) if x[0] != x[1]][:1])[:300]), 'changed', case=[case[0], [word], case[2]])
            c.close()
            if case[2] == 'watch':
                if f.writes or f.getvalue() != img:
                    raise Violation('%s: a container opened for reading was written to (%d times)' % (word, f.writes), 'bytes', case=[case[0], [word], case[2]])
            t.state((case[0], tuple(word)))
        finally:
            f.close()
            if case[2] != 'watch':
                if aafrig.readfile(path) != img:
                    raise Violation('%s changes the file' % (word,), 'bytes', case=[case[0], [word], case[2]])
                os.unlink(path)


def container_cases(images, alpha, n, media):
    def gen():
        for i in images:
            for m in media:
                for a in sorted(alpha):
                    yield [i, [[a] + list(w) for w in words(sorted(alpha), n - 1)], m]
    return gen


def spaces(tier):
    both = dict(CREADS)
    both.update(CEDITS)
    if tier == 'quick':
        return [
            Space('classes', class_cases(4, ['r'], [0, 1]), run_class, 'every mutating operation on every property and attribute of an object of every class', cpu_limit=120),
            Space('calls', call_cases('r', 3), run_calls, 'every mutating call on a project opened for reading', cpu_limit=120),
            Space('reads', read_cases(2, 'r'), run_reads, 'every pair of reading operations', cpu_limit=120),
            Space('container', container_cases((0, 3), both, 2, ('watch',)), run_container, 'every pair of reading and mutating operations on a container', cpu_limit=120),
        ]
    return [
        Space('classes', class_cases(4, ['r', 'rb'], [0, 1, 2]), run_class, 'every mutating operation on every property and attribute of an object of every class', cpu_limit=600),
        Space('calls', call_cases('rb', 3), run_calls, 'every mutating call on a project opened for reading', cpu_limit=600),
        Space('pairs', pair_cases('r'), run_calls, 'every ordered pair of mutating calls', cpu_limit=900),
        Space('reads', read_cases(3, 'r'), run_reads, 'every triple of reading operations', cpu_limit=900),
        Space('container', container_cases((0, 1, 2, 3), both, 2, ('watch', 'file')), run_container, 'every pair of operations on a container', cpu_limit=600),
        Space('container3', container_cases((0,), both, 3, ('watch',)), run_container, 'every triple of operations on a container', cpu_limit=600),
    ]
