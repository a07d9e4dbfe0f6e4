"""C36: convenience attributes, constructors and queries are faithful views of what is stored.

Every convenience attribute of every class that has it (48 attributes), on a
filled and on a bare object, detached, attached and saved earlier: every value
of its domain, every ordered pair of assignments; the stored form of the whole
object is compared with the previous one with just that property replaced, all
attributes are read after each assignment, and the file is read back by the
independent reader and by the library.  Every subset of the arguments of every
constructor and slot factory against a table of what it has to store.  Every
word of adding mobs of each kind, giving them usages, removing them and
reopening, with the content queries compared with a list model."""
import itertools, os, struct, uuid
import aaf2
from aaf2.auid import AUID
from aaf2.mobid import MobID
from aaf2.core import AAFObject
from aaf2.rational import AAFRational
from lib import aafrig, aafref, filler, util
from lib.mc import Space, Violation, words, chunks, exc_site, tb_tail

LEVEL = 'model_checking'
ASSUMPTIONS = ['attributes whose values the data model restricts further (ids of attached mobs and definitions) are set on detached objects only',
               'explicit zero or empty arguments of constructors are judged where zero is not the documented default of something else']

M = filler.Model()
# ---- kinds of attributes: values as (what is given, stored form, what is read back) ----


def i_(fmt):
    bits = struct.calcsize('<' + fmt) * 8
    vals = [0, 1, 25, (1 << (bits - 1)) - 1] + ([-1, -(1 << (bits - 1))] if fmt.islower() else [(1 << bits) - 1])
    return lambda w: [(v, ('D', struct.pack('<' + fmt, v)), v) for v in vals]


def text(w):
    return [(s, ('D', s.encode('utf-16-le') + b'\0\0'), s) for s in (u'', u'a', u'n\xe4me \u65e5\U0001f600', u'x' * 300)]


def flag(w):
    return [(v, ('D', b'\1' if v else b'\0'), v) for v in (True, False)]


def rate(w):
    return [(v, ('D', struct.pack('<ii', n, d)), AAFRational(n, d)) for v, n, d in
            ((25, 25, 1), ('24000/1001', 24000, 1001), (AAFRational('50/2'), 50, 2), (0.5, 1, 2), ('-1/3', -1, 3))]


def mobid(w):
    out = [MobID(int=0), MobID(int=w.fresh()), MobID('urn:smpte:umid:060a2b34.01010105.01010f20.13000000.01020304.05060708.090a0b0c.0d0e0f10')]
    return [(m, ('D', bytes(m.bytes_le)), m) for m in out]


def own_mobid(w):
    return [(m, ('D', bytes(m.bytes_le)), m) for m in (MobID(int=w.fresh()), MobID(int=w.fresh()))]


def auid(w):
    out = []
    for n in range(2):
        a = AUID(int=w.fresh())
        out.append((a, ('D', bytes(a.bytes_le)), a))
    return out


def uid(w):
    out = []
    for n in range(2):
        u = uuid.UUID(int=w.fresh())
        out.append((u, ('D', u.bytes_le), u))
    return out


def mob(w):
    return [(m, ('D', bytes(m.mob_id.bytes_le)), m) for m in w.mobs]


DATADEFS = {'Picture': '01030202-0100-0000-060e-2b3404010101', 'Sound': '01030202-0200-0000-060e-2b3404010101',
            'Timecode': '01030201-0100-0000-060e-2b3404010101', 'DescriptiveMetadata': '01030201-1000-0000-060e-2b3404010101'}
# the data kinds every dictionary starts with
ALLKINDS = dict(DATADEFS, Data='01030202-0300-0000-060e-2b3404010101', LegacyPicture='6f3c8ce1-6cef-11d2-807d-006008143e6f',
                Matte='05cba731-1daa-11d3-80ad-006008143e6f', PictureWithMatte='05cba732-1daa-11d3-80ad-006008143e6f',
                LegacySound='78e1ebe1-6cef-11d2-807d-006008143e6f', LegacyTimecode='7f275e81-77e5-11d2-807f-006008143e6f',
                Edgecode='d2bb2af0-d234-11d2-89ee-006097116212', Auxiliary='01030203-0100-0000-060e-2b3404010105', Unknown='851419d0-2e4f-11d3-8a5b-0050040ef7d2')
DEFS = {'DataDefinitions': 0x2605, 'OperationDefinitions': 0x2603, 'ParameterDefinitions': 0x2604, 'InterpolationDefinitions': 0x2609}


def weak(coll, a):
    return ('W', (2, 0x3b04, DEFS[coll]), 0x1b01, uuid.UUID(a).bytes_le)


def datadef(w):
    return [(w.f.dictionary.lookup_datadef(AUID(a)), weak('DataDefinitions', a), w.f.dictionary.lookup_datadef(AUID(a))) for a in DATADEFS.values()]


def kind(w):
    out = [(g, weak('DataDefinitions', DATADEFS[n]), n) for g, n in (('picture', 'Picture'), ('DataDef_Sound', 'Sound'), ('Timecode', 'Timecode'), ('SOUND', 'Sound'))]
    return out + [(g, weak('DataDefinitions', a), n) for n, a in sorted(ALLKINDS.items()) for g in (n, 'DataDef_' + n.lower()) if n not in DATADEFS]


def operation(w):
    return [(o, weak('OperationDefinitions', str(o.auid)), o) for o in w.ops]


def interp(w):
    return [(o, weak('InterpolationDefinitions', str(o.auid)), o) for o in w.interps]


def typedef(w):
    out = []
    for n in ('aafInt32', 'Rational'):
        t = w.f.metadict.lookup_typedef(n)
        out.append((t, ('W', (1, 4), 5, bytes(t.auid.bytes_le)), t))
    return out


def usage(w):
    d = {n: a for a, n in next(x for x in M.types.values() if x['name'] == 'UsageType')['elements'] if n in USAGE}
    return [(k, ('D', uuid.UUID(v).bytes_le), k) for k, v in d.items()]


def segment(w):
    out = []
    for mk in (lambda: w.f.create.Filler('sound', 3), lambda: w.f.create.SourceClip(1, 2, media_kind='picture')):
        out.append((mk, None, None))
    return out


def descriptor(w):
    return [(lambda: w.f.create.TapeDescriptor(), None, None), (lambda: w.f.create.ImportDescriptor(), None, None)]


def parameterdef(w):
    return [(p, ('D', bytes(p.auid.bytes_le)), p) for p in w.pdefs]


def fraction(w):
    return [(v, ('D', struct.pack('<ii', n, d)), float(n) / d) for v, n, d in ((0, 0, 1), (3, 3, 1), ('1/4', 1, 4), (AAFRational('10/4'), 10, 4), (-0.5, -1, 2))]


USAGE = [None, 'Usage_TopLevel', 'Usage_SubClip']
# class -> [(attribute, property, kind, detached only)]
ATTRS = [
    ('Component', 'length', 'Length', i_('q'), 0), ('Component', 'datadef', 'DataDefinition', datadef, 0), ('Component', 'media_kind', 'DataDefinition', kind, 0),
    ('Transition', 'cutpoint', 'CutPoint', i_('q'), 0),
    ('SourceReference', 'mob_id', 'SourceID', mobid, 0), ('SourceReference', 'slot_id', 'SourceMobSlotID', i_('I'), 0), ('SourceReference', 'mob', 'SourceID', mob, 0),
    ('SourceClip', 'start', 'StartTime', i_('q'), 0),
    ('Timecode', 'start', 'Start', i_('q'), 0), ('Timecode', 'fps', 'FPS', i_('H'), 0), ('Timecode', 'drop', 'Drop', flag, 0),
    ('OperationGroup', 'operation', 'Operation', operation, 0),
    ('MobSlot', 'segment', 'Segment', segment, 0), ('MobSlot', 'name', 'SlotName', text, 0), ('MobSlot', 'slot_id', 'SlotID', i_('I'), 0),
    ('TimelineMobSlot', 'origin', 'Origin', i_('q'), 0), ('TimelineMobSlot', 'edit_rate', 'EditRate', rate, 0), ('EventMobSlot', 'edit_rate', 'EditRate', rate, 0),
    ('Mob', 'name', 'Name', text, 0), ('Mob', 'mob_id', 'MobID', own_mobid, 1), ('Mob', 'usage', 'UsageCode', usage, 0),
    ('SourceMob', 'descriptor', 'EssenceDescription', descriptor, 0),
    ('EssenceData', 'mob_id', 'MobID', own_mobid, 1),
    ('FileDescriptor', 'length', 'Length', i_('q'), 0),
    ('DefinitionObject', 'name', 'Name', text, 0), ('DefinitionObject', 'description', 'Description', text, 0),
    ('DefinitionObject', 'auid', 'Identification', auid, 1), ('DefinitionObject', 'uuid', 'Identification', uid, 1),
    ('OperationDef', 'datadef', 'DataDefinition', datadef, 0), ('OperationDef', 'media_kind', 'DataDefinition', kind, 0), ('OperationDef', 'number_inputs', 'NumberInputs', i_('i'), 0),
    ('ParameterDef', 'typedef', 'Type', typedef, 0),
    ('TaggedValue', 'name', 'Name', text, 0),
    ('ControlPoint', 'time', 'Time', fraction, 0),
    ('VaryingValue', 'interpolationdef', 'Interpolation', interp, 0), ('VaryingValue', 'interpolation', 'Interpolation', interp, 0),
    ('Parameter', 'auid', 'Definition', lambda w: [(p.auid, ('D', bytes(p.auid.bytes_le)), p.auid) for p in w.pdefs], 1), ('Parameter', 'parameterdef', 'Definition', parameterdef, 1),
]
READS = {}
for _c, _a, _p, _k, _d in ATTRS:
    READS.setdefault(_a, []).append((_c, _p))
# read-only views of whole properties
WHOLE = [('Sequence', 'components', 'Components'), ('NestedScope', 'slots', 'Slots'), ('OperationGroup', 'parameters', 'Parameters'), ('OperationGroup', 'segments', 'InputSegments'),
         ('Mob', 'slots', 'Slots'), ('OperationDef', 'parameters', 'ParametersDefined'), ('VaryingValue', 'pointlist', 'PointList'),
         ('EssenceDescriptor', 'locator', 'Locator'), ('RGBADescriptor', 'pixel_layout', 'PixelLayout')]


def reads(attr, stored):
    """what an attribute has to read as, from the stored bytes; None: not told here"""
    if stored[0] == 'W':
        a = AUID(bytes_le=stored[3])
        return {'media_kind': {v: k for k, v in ALLKINDS.items()}.get(str(a)), 'datadef': a, 'operation': a, 'typedef': a, 'interpolation': a, 'interpolationdef': a}.get(attr)
    d = stored[1]
    if attr in ('length', 'cutpoint', 'start', 'origin'):
        return struct.unpack('<q', d)[0]
    if attr in ('slot_id', 'fps', 'number_inputs'):
        return struct.unpack({'slot_id': '<I', 'fps': '<H', 'number_inputs': '<i'}[attr], d)[0]
    if attr in ('name', 'description'):
        return d.decode('utf-16-le')[:-1]
    if attr == 'edit_rate':
        return AAFRational(*struct.unpack('<ii', d))
    if attr == 'time':
        n, m = struct.unpack('<ii', d)
        return float(n) / m if m else None
    if attr == 'drop':
        return d != b'\0'
    if attr == 'mob_id':
        return MobID(bytes_le=d)
    if attr in ('auid', 'uuid'):
        return AUID(bytes_le=d)
    return None


def mro(o):
    return [c.__name__ for c in type(o).__mro__]


class World(object):
    """a file with things to refer to, and a place for an object of any class"""

    def __init__(self, f):
        self.f = f
        self.n = 0
        self.fill = filler.Filler(f, M, 3)
        c = f.create
        self.mobs = []
        for k in range(2):
            m = c.MasterMob('target%d' % k)
            m.mob_id = MobID(int=self.fresh())
            f.content.mobs.append(m)
            self.mobs.append(m)
        self.ops = []
        for k in range(2):
            o = c.OperationDef(AUID(int=self.fresh()), 'op%d' % k)
            o.media_kind = 'picture'
            o.number_inputs = 1
            f.dictionary.register_def(o)
            self.ops.append(o)
        self.interps = []
        for k in range(2):
            o = c.InterpolationDef(AUID(int=self.fresh()), 'in%d' % k)
            f.dictionary.register_def(o)
            self.interps.append(o)
        self.pdefs = []
        for k in range(2):
            o = c.ParameterDef(AUID(int=self.fresh()), 'par%d' % k, '', 'Rational')
            f.dictionary.register_def(o)
            self.pdefs.append(o)
        self.seq = c.Sequence('picture')
        self.home = c.CompositionMob('home')
        self.home.mob_id = MobID(int=self.fresh())
        s = self.home.create_timeline_slot(25)
        s.segment = self.seq
        f.content.mobs.append(self.home)
        self.slots = c.CompositionMob('slots')
        self.slots.mob_id = MobID(int=self.fresh())
        f.content.mobs.append(self.slots)
        self.tags = self.mobs[0]['UserComments']
        self.opg = None

    def fresh(self):
        self.n += 1
        return 0x060a2b340101010501010f2013000000 << 128 | 0xc36 << 64 | self.n if self.n < 0 else (0xc36c36 << 100 | 0x4000 << 64 | 0x8 << 60 | self.n)

    def object(self, name, full):
        return self.fill.make(M.byname[name], 1 if full else 0, 0)

    def place(self, o):
        names = mro(o)
        f, c = self.f, self.f.create
        if 'Component' in names:
            self.seq.components.append(o)
        elif 'MobSlot' in names:
            if o.segment is None:
                o.segment = c.Filler('picture', 1)
            self.slots.slots.append(o)
        elif 'Mob' in names:
            if 'SourceMob' in names and o.descriptor is None:
                o.descriptor = c.TapeDescriptor()
            f.content.mobs.append(o)
        elif 'EssenceDescriptor' in names:
            m = c.SourceMob('d')
            m.mob_id = MobID(int=self.fresh())
            m.descriptor = o
            f.content.mobs.append(m)
        elif 'EssenceData' in names:
            f.content.essencedata.append(o)
        elif 'DefinitionObject' in names:
            k = M.classes[str(o.class_id)]['name'] + 's'
            f.dictionary[k].append(o)
        elif 'TaggedValue' in names:
            self.tags.append(o)
        elif 'ControlPoint' in names:
            g = c.OperationGroup(self.ops[0], 5, 'picture')
            v = c.VaryingValue(self.pdefs[0], self.interps[0])
            v.pointlist.append(o)
            g.parameters.append(v)
            self.seq.components.append(g)
        elif 'Parameter' in names:
            g = c.OperationGroup(self.ops[0], 5, 'picture')
            g.parameters.append(o)
            self.seq.components.append(g)
        else:
            raise AssertionError(names)


def classes():
    """(class, its attributes): every concrete class of the model that has a convenience attribute"""
    from aaf2.utils import AAFClaseID_dict
    import aaf2.content, aaf2.misc
    out = []
    for a in M.concrete():
        k = AAFClaseID_dict.get(AUID(a))
        if k is None:
            continue
        names = [c.__name__ for c in k.__mro__]
        mine = [n for n, x in enumerate(ATTRS) if x[0] in names]
        # the most derived definition of an attribute counts
        if mine:
            out.append((M.classes[a]['name'], mine))
    return out


def pid_of(o, prop):
    for pa, p in M.props(str(o.class_id)):
        if p['name'] == prop:
            return p['pid']
    raise AssertionError((o, prop))


def look(o, form, what, seen, case):
    """read every attribute; seen: what the attributes last set have to read as"""
    names = mro(o)
    for k, x in enumerate(ATTRS):
        cls, attr, prop, kd, only = x
        if cls not in names:
            continue
        got = getattr(o, attr)
        pid = pid_of(o, prop)
        if pid not in form[1]:
            # the slot and mob of a clip that names none, the kind of nothing
            if got is not None and not (attr == 'time'):
                raise Violation('%s: %s of %s reads %r without %s' % (what, attr, names[0], got, prop), case=case)
            continue
        exp = reads(attr, form[1][pid])
        if exp is not None:
            have = got.auid if attr in ('datadef', 'operation', 'typedef', 'interpolation', 'interpolationdef') else got
            if have != exp:
                raise Violation('%s: %s of %s reads %r, stored is %r' % (what, attr, names[0], got, exp), case=case)
        if attr in seen:
            exp = seen[attr]
            same = got is exp or got == exp
            if same and isinstance(exp, AAFRational):
                same = (got.numerator, got.denominator) == (exp.numerator, exp.denominator)
            if not same:
                raise Violation('%s: %s of %s reads %r, expected %r' % (what, attr, names[0], got, exp), case=case)


    for cls, attr, prop in WHOLE:
        if cls not in names:
            continue
        got, pid = getattr(o, attr), pid_of(o, prop)
        if hasattr(got, 'pid'):
            if got.pid != pid or got.parent is not o:
                raise Violation('%s: %s of %s is the property 0x%04x' % (what, attr, names[0], got.pid), case=case)
        elif got != o[prop].value:
            raise Violation('%s: %s of %s reads %r, %s holds %r' % (what, attr, names[0], got, prop, o[prop].value), case=case)


ALIASES = {'Identification': ('auid', 'uuid'), 'DataDefinition': ('datadef', 'media_kind'), 'SourceID': ('mob_id', 'mob'), 'Definition': ('auid', 'parameterdef'), 'Interpolation': ('interpolation', 'interpolationdef')}


def run_attrs(case, t):
    """case: [class, full, state, [words]]; a word is [[attr index, value index], ...]"""
    cname, full, state, ws = case
    p = aafrig.writefile(aafrig.newpath('c36'), aafrig.base_image())
    try:
        f = aaf2.open(p, 'r+')
        w = World(f)
        objs = []
        kept = []
        try:
            for word in ws:
                o = w.object(cname, full)
                if state != 'free':
                    w.place(o)
                objs.append(o)
            if state == 'saved':
                f.save()
            for word, o in zip(ws, objs):
                one = [cname, full, state, [word]]
                form = aafrig.canon(o)
                seen = {}
                for n, (k, vi) in enumerate(word):
                    cls, attr, prop, kd, only = ATTRS[k]
                    vals = kd(w)
                    given, stored, back = vals[vi]
                    what = '%s %s, after %s' % (state, 'filled' if full else 'bare', ['%s=%s' % (ATTRS[a][1], b) for a, b in word[:n + 1]])
                    if callable(given):
                        given = given()
                        stored, back = ('R', aafrig.canon(given)), given
                    try:
                        setattr(o, attr, given)
                    except Exception as e:
                        raise Violation('%s: setting %s.%s to %r raised %s: %s [%s]' % (what, cname, attr, given, type(e).__name__, e, tb_tail(e)), sig='exc:%s' % exc_site(e), case=one)
                    exp = (form[0], dict(form[1]))
                    exp[1][pid_of(o, prop)] = stored
                    got = aafrig.canon(o)
                    if got != exp:
                        raise Violation('%s: setting %s.%s to %r stored something else: %s' % (what, cname, attr, given, '; '.join(aafref.diff(exp, got))[:400]), sig='stored', case=one)
                    for other in ALIASES.get(prop, ()):
                        seen.pop(other, None)
                    seen[attr] = back
                    form = got
                    look(o, form, what, seen, one)
                    t.step()
                t.state((cname, state, full, tuple(k for k, v in word)))
                kept.append((o, form, seen, one))
            if state == 'free':
                for o, form, seen, one in kept:
                    w.place(o)
            paths = []
            for o, form, seen, one in kept:
                now = aafrig.canon(o)
                # placing a bare slot or source mob gives it what it needs
                need = {k: v for k, v in now[1].items() if k in form[1]}
                if need != form[1]:
                    raise Violation('placing the object changed it: %s' % '; '.join(aafref.diff(form, now)), case=one)
                paths.append((o.dir.path(), now, seen, one))
        finally:
            f.close()
        a = aafrig.load(p)
        with aaf2.open(p, 'r') as f:
            for path, form, seen, one in paths:
                o = f.manager.read_object(path)
                got = aafrig.canon(o)
                if got != form:
                    raise Violation('after reopening the object differs: %s' % '; '.join(aafref.diff(form, got)), case=one)
                again = {k: v for k, v in seen.items() if not isinstance(v, AAFObject)}
                look(o, form, 'after reopening', again, one)
                for k, v in seen.items():
                    if isinstance(v, AAFObject) and getattr(o, k).class_id != v.class_id:
                        raise Violation('after reopening %s is a %r' % (k, getattr(o, k)), case=one)
                t.step()
        t.outcome('%s %s' % (cname, state))
    finally:
        os.unlink(p)


def nvalues():
    p = aafrig.writefile(aafrig.newpath('c36'), aafrig.base_image())
    try:
        with aaf2.open(p, 'r+') as f:
            w = World(f)
            return [len(x[3](w)) for x in ATTRS]
    finally:
        os.unlink(p)


# the classes tried with every data kind there is
KINDED = ('Filler', 'OperationDef')


def attr_cases(pairs, batch):
    sizes = nvalues()
    for cname, mine in classes():
        for full in (True, False):
            for state in ('free', 'placed', 'saved'):
                opts = [[k, v] for k in mine if not ATTRS[k][4] or state == 'free' for v in range(sizes[k])
                        if v < 4 or ATTRS[k][3] is not kind or cname in KINDED]
                ws = [[o] for o in opts]
                if pairs == 'all':
                    ws += [[a, b] for a in opts for b in opts]
                else:
                    # every ordered pair of attributes, values alternating
                    ks = sorted(set(k for k, v in opts))
                    ws += [[[a, (a + b) % sizes[a]], [b, (a + 2 * b + 1) % sizes[b]]] for a in ks for b in ks]
                    if cname in KINDED and full:
                        ws += [[a, b] for a in opts for b in opts if ATTRS[a[0]][3] is kind and ATTRS[b[0]][3] is kind]
                for c in chunks(ws, batch):
                    yield [cname, full, state, c]


# ---- constructors -------------------------------------------------------------------------------
D = lambda fmt, v: ('D', struct.pack('<' + fmt, v))
S = lambda s: ('D', s.encode('utf-16-le') + b'\0\0')
K = lambda n: weak('DataDefinitions', DATADEFS[n])
R = lambda n, d: ('D', struct.pack('<ii', n, d))
LENGTH, KIND = 0x0202, 0x0201
ZERO_MOB = ('D', bytes(32))
SOME = MobID(int=0x1234 << 200 | 77)

# class -> (arguments in order: name -> [(value, {pid: stored})], defaults {pid: stored})
_comp = {'media_kind': [('sound', {KIND: K('Sound')}), ('Timecode', {KIND: K('Timecode')})],
         'length': [(7, {LENGTH: D('q', 7)}), (0, {LENGTH: D('q', 0)}), (1 << 40, {LENGTH: D('q', 1 << 40)})]}
_cdef = {KIND: K('Picture'), LENGTH: D('q', 0)}


def ctor_table():
    t = {}
    for n in ('Filler', 'Transition', 'Pulldown', 'ScopeReference', 'Selector', 'EssenceGroup', 'EdgeCode', 'NestedScope'):
        t[n] = ([('media_kind', _comp['media_kind']), ('length', _comp['length'])], _cdef)
    t['Sequence'] = ([('media_kind', _comp['media_kind']), ('length', _comp['length'])], dict(_cdef), {0x1001: ('V', ())})
    t['SourceClip'] = ([('start', [(3, {0x1201: D('q', 3)}), (0, {0x1201: D('q', 0)}), (-2, {0x1201: D('q', -2)})]), ('length', _comp['length']),
                        ('mob_id', [(SOME, {0x1101: ('D', bytes(SOME.bytes_le))})]), ('slot_id', [(5, {0x1102: D('I', 5)}), (0, {0x1102: D('I', 0)})]),
                        ('media_kind', _comp['media_kind'])], dict(_cdef), {0x1201: D('q', 0), 0x1101: ZERO_MOB, 0x1102: D('I', 0)})
    t['TimelineMobSlot'] = ([('slot_id', [(0, {0x4801: D('I', 0)}), (4, {0x4801: D('I', 4)})]), ('name', [(u'n\xe4', {0x4802: S(u'n\xe4')}), (u'', {0x4802: S(u'')})]),
                             ('segment', [('FILLER', {})]), ('origin', [(5, {0x4b02: D('q', 5)}), (-5, {0x4b02: D('q', -5)}), (0, {0x4b02: D('q', 0)})]),
                             ('edit_rate', [(30, {0x4b01: R(30, 1)}), ('24000/1001', {0x4b01: R(24000, 1001)}), (AAFRational('50/2'), {0x4b01: R(50, 2)})])],
                            {0x4802: S(u''), 0x4b02: D('q', 0), 0x4b01: R(25, 1)}, {})
    for n in ('EventMobSlot', 'StaticMobSlot'):
        t[n] = ([x for x in t['TimelineMobSlot'][0][:3]], {0x4802: S(u'')}, {})
    for n in ('DataDef', 'OperationDef', 'ContainerDef', 'InterpolationDef', 'PluginDef', 'TaggedValueDef', 'ParameterDef'):
        a = AUID('c36c36c3-0000-4000-8000-000000000001')
        st = {0x1b01: ('D', bytes(a.bytes_le))}
        t[n] = ([('auid', [(a, st), (str(a), st), (a.uuid, st)]), ('name', [(u'n\xe4', {0x1b02: S(u'n\xe4')})]), ('description', [(u'some', {0x1b03: S(u'some')}), (u'', {0x1b03: S(u'')})])], {}, {})
    t['ParameterDef'] = (t['ParameterDef'][0] + [('typedef', [('Rational', {0x1f01: ('W', (1, 4), 5, 'Rational')}), ('aafInt32', {0x1f01: ('W', (1, 4), 5, 'aafInt32')})])], {}, {})
    return t


TIMECODE = [(fps, drop, length) for fps in (None, 24, 25, 30, 60) for drop in (None, True, False) for length in (None, 1, 100)]


def diffs(exp, got):
    return '; '.join(aafref.diff((b'', exp), (b'', got)))[:400]


def ctor_cases():
    for n, tab in sorted(ctor_table().items()):
        for picks in itertools.product(*[[None] + list(range(len(v))) for a, v in tab[0]]):
            for positional in (False, True):
                yield [n, list(picks), positional]


def run_ctor_chunk(case, t):
    f = aaf2.open(None)
    try:
        for n, picks, positional in case:
            tab = ctor_table()[n]
            args, exp = tab[0], dict(tab[1])
            exp.update(tab[2] if len(tab) > 2 else {})
            kw, pos = {}, []
            for (name, vals), k in zip(args, picks):
                if k is None:
                    pos.append(None)
                    continue
                v, st = vals[k]
                if v == 'FILLER':
                    v = f.create.Filler('sound', 3)
                    st = {0x4803: ('R', aafrig.canon(v))}
                for q, s in st.items():
                    if s[0] == 'W' and s[3] in ('Rational', 'aafInt32'):
                        s = s[:3] + (bytes(f.metadict.lookup_typedef(s[3]).auid.bytes_le),)
                    exp[q] = s
                kw[name] = v
                pos.append(v)
            one = [[n, picks, positional]]
            what = '%s(%s)' % (n, pos if positional else kw)
            try:
                o = getattr(f.create, n)(*pos) if positional else getattr(f.create, n)(**kw)
            except Exception as e:
                raise Violation('%s raised %s: %s [%s]' % (what, type(e).__name__, e, tb_tail(e)), sig='exc:%s' % exc_site(e), case=one)
            got = aafrig.canon(o)[1]
            if got != exp:
                raise Violation('%s made an object that differs: %s' % (what, diffs(exp, got)), sig='ctor', case=one)
            t.step()
            t.outcome(n)
            t.state((n, tuple(picks)))
    finally:
        f.close()


# ---- slot factories -----------------------------------------------------------------------------
RATES = [25, '24000/1001', AAFRational(48000)]


def pair(r):
    r = AAFRational(r)
    return r.numerator, r.denominator


def factory_cases():
    for r in range(3):
        yield ['picture', r, 0, 0, 0]
        yield ['sound', r, 0, 0, 0]
        for k in range(3):
            for i in (None, 0, 3):
                yield ['sequence', r, k, i, 0]
                yield ['empty', r, k, i, 0]
        for fps in (24, 25, 30, 60):
            for drop in (False, True):
                for length in (None, 1, 500):
                    yield ['timecode', r, fps, drop, length]
                    for k in range(2):
                        yield ['tape', r, fps, drop, [length, k]]
    for i in range(len(TIMECODE)):
        yield ['TC', i, 0, 0, 0]


KINDS = [('picture', 'Picture'), ('sound', 'Sound'), ('Timecode', 'Timecode')]


def run_factories(case, t):
    f = aaf2.open(None)
    try:
        for c in case:
            what, r, a, b, x = c

            def need(got, exp, about):
                if got != exp:
                    raise Violation('%s: %s is %r, expected %r' % (c, about, got, exp), sig='factory', case=[c])

            def slot(s, i, kd, seg):
                need(s.class_id, AUID('0d010101-0101-3b00-060e-2b3402060101'), 'class of the slot')
                form = aafrig.canon(s)[1]
                need(form[0x4b01], R(*pair(RATES[r])), 'rate')
                need(form[0x4b02], D('q', 0), 'origin')
                if i is not None:
                    need(s.slot_id, i, 'id')
                need(type(s.segment).__name__, seg, 'segment')
                need(aafrig.canon(s.segment)[1][KIND], K(kd), 'kind of the segment')
                need((s.media_kind, s.datadef.auid), (kd, AUID(DATADEFS[kd])), 'kind of the slot')

            def tc(o, fps, drop, length):
                need(aafrig.canon(o)[1], {KIND: K('Timecode'), LENGTH: D('q', length or fps * 43200), 0x1501: D('q', 0), 0x1502: D('H', fps), 0x1503: ('D', b'\1' if drop else b'\0')}, 'timecode')
            if what == 'TC':
                fps, drop, length = TIMECODE[r]
                kw = {}
                if fps is not None:
                    kw['fps'] = fps
                if drop is not None:
                    kw['drop'] = drop
                if length is not None:
                    kw['length'] = length
                tc(f.create.Timecode(**kw), fps or 25, drop or False, length)
                t.step()
                continue
            m = f.create.SourceMob('m')
            if what in ('picture', 'sound'):
                s = getattr(m, 'create_%s_slot' % what)(RATES[r])
                slot(s, 1, what.capitalize(), 'Sequence')
                need(list(s.segment.components), [], 'components')
            elif what == 'sequence':
                s = m.create_empty_sequence_slot(RATES[r], b, KINDS[a][0])
                slot(s, 1 if b is None else b, KINDS[a][1], 'Sequence')
            elif what == 'empty':
                s = m.create_empty_slot(RATES[r], KINDS[a][0], b)
                slot(s, 1 if b is None else b, KINDS[a][1], 'SourceClip')
            elif what == 'timecode':
                s = m.create_timecode_slot(RATES[r], a, b, x)
                slot(s, 1, 'Timecode', 'Timecode')
                tc(s.segment, a, b, x)
            else:
                s, s2 = m.create_tape_slots('tape name', RATES[r], a, b, KINDS[x[1]][0], x[0])
                slot(s, 1, KINDS[x[1]][1], 'SourceClip')
                slot(s2, 2, 'Timecode', 'Timecode')
                tc(s2.segment, a, b, x[0])
                n, d = pair(RATES[r])
                need(s.segment.length, n * 43200 // d, 'length of the tape')
                need((m.name, type(m.descriptor).__name__), ('tape name', 'TapeDescriptor'), 'tape')
                need([y.slot_id for y in m.slots], [1, 2], 'slots')
            need(list(m.slots)[0] is s, True, 'slot is in the mob')
            t.step()
            t.outcome(what)
            t.state(tuple(map(str, c)))
    finally:
        f.close()


# ---- queries ------------------------------------------------------------------------------------
QOPS = ['C', 'T', 'M', 'S', 'u', 'v', 'w', '-', '.', 'o']
QCLASS = {'C': 'CompositionMob', 'T': 'CompositionMob', 'M': 'MasterMob', 'S': 'SourceMob'}


def query_words(n):
    for w in words(QOPS, n, 1):
        w = ''.join(w)
        if w[0] in 'CTMS':
            yield w


class Query(object):
    def __init__(self, tag, word):
        self.tag, self.word = tag, word
        self.model = []         # [mob id, class, usage]

    def add(self, f, k, n):
        m = getattr(f.create, QCLASS[k])('q')
        m.mob_id = MobID(int=self.tag << 64 | 0xc36 << 128 | n)
        if k == 'T':
            m.usage = 'Usage_TopLevel'
        if k == 'S':
            m.descriptor = f.create.TapeDescriptor()
        f.content.mobs.append(m)
        self.model.append([m.mob_id, QCLASS[k], 'Usage_TopLevel' if k == 'T' else None])


def run_queries(case, t):
    """case: words of equal shape: all of one batch live in one file, step by step"""
    p = aafrig.writefile(aafrig.newpath('c36'), aafrig.base_image())
    f = aaf2.open(p, 'r+')
    try:
        qs = [Query(i + 1, w) for i, w in enumerate(case)]

        def look(step):
            c = f.content
            got = {'toplevel': c.toplevel(), 'mastermobs': c.mastermobs(), 'compositionmobs': c.compositionmobs(), 'sourcemobs': c.sourcemobs(), 'mobs': c.mobs}
            for name, it in got.items():
                objs = list(it)
                if any(o is not c.mobs[o.mob_id] for o in objs):
                    raise Violation('%s yielded an object that is not in the file' % name, case=case)
                ids = [o.mob_id for o in objs]
                byq = {}
                for i in ids:
                    byq.setdefault(i, 0)
                    byq[i] += 1
                left = set(byq)
                for q in qs:
                    for mid, cls, us in q.model:
                        want = {'toplevel': cls == 'CompositionMob' and us == 'Usage_TopLevel', 'mobs': True}.get(name, cls.lower() + 's' == name)
                        if byq.get(mid, 0) != int(want):
                            raise Violation('%s after %s: %s yields the %s with usage %s %d times' % (q.word, q.word[:step], name, cls, us, byq.get(mid, 0)), sig=name, case=[q.word])
                        left.discard(mid)
                if left:
                    raise Violation('%s yields mobs that were removed' % name, case=case)
                t.step()
        n = max(len(w) for w in case)
        for step in range(n):
            re = False
            for q in qs:
                if step >= len(q.word):
                    continue
                k = q.word[step]
                if k in QCLASS:
                    q.add(f, k, step + 1)
                elif k in 'uvw' and q.model:
                    # the usage of the newest (u: top level, w: none) or the oldest (v) mob
                    x = q.model[0 if k == 'v' else -1]
                    us = {'u': 'Usage_TopLevel', 'v': 'Usage_SubClip', 'w': None}[k]
                    m = f.content.mobs[x[0]]
                    if us is None:
                        if 'UsageCode' in m:
                            del m['UsageCode']
                    else:
                        m.usage = us
                    if m.usage != us:
                        raise Violation('usage %s reads %s' % (us, m.usage), case=[q.word])
                    x[2] = us
                elif k == '-' and q.model:
                    f.content.mobs.pop(q.model.pop(0)[0])
                elif k == '.':
                    re = True
                elif k == 'o' and q.model:
                    # out and in again
                    m = f.content.mobs.pop(q.model[-1][0])
                    f.content.mobs.append(m)
                t.state((q.word[:step + 1],))
            look(step + 1)
            if re:
                f.close()
                f = aaf2.open(p, 'r+')
                look(step + 1)
        f.close()
        f = aaf2.open(p, 'r')
        look(n)
        t.outcome('queries')
    finally:
        f.close()
        os.unlink(p)


def query_cases(n, batch):
    # words with the same reopening points share a file
    by = {}
    for w in query_words(n):
        by.setdefault(''.join('.' if c == '.' else 'x' for c in w), []).append(w)
    for k in sorted(by):
        for c in chunks(by[k], batch):
            yield c


def spaces(tier):
    T = tier == 'thorough'
    return [
        Space('attributes', attr_cases('all' if T else 'some', 120), run_attrs,
              'every attribute of every class x every value, and %s, on filled and bare objects, detached, placed and saved' % ('every ordered pair of assignments' if T else 'every ordered pair of attributes'), cpu_limit=240),
        Space('constructors', chunks(ctor_cases(), 200), run_ctor_chunk, 'every subset of the arguments of every constructor, by name and by position', cpu_limit=240),
        Space('factories', chunks(factory_cases(), 40), run_factories, 'every slot factory x rates x kinds x ids x timecodes', cpu_limit=240),
        Space('queries', query_cases(5 if T else 4, 300), run_queries, 'every word of adding, removing, re-adding mobs of each kind, changing usages and reopening', cpu_limit=300),
    ]
