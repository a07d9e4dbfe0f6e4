"""C25: linked MXF media is described by what the MXF file says.

MXF files are generated from a description of their metadata (lib/mxfgen, written
from the format): every descriptor kind with every subset of its optional properties
and every boundary value, every kind of segment, package chains, every order of the
sets of a file, every rotation of the properties within them, and every combination
of grid size, length form, fill, dark sets, index, repeated metadata and partition
status.  Each file is linked into an AAF file and the resulting mobs are compared with
the description, at once, after linking again, and after save and reopen."""
import contextlib, io, itertools, os, struct
from fractions import Fraction
import datetime
import aaf2
from aaf2 import mxf
from aaf2.auid import AUID
from lib import aafrig, util
from lib import mxfgen as G
from lib.mc import Space, Violation, exc_site, tb_tail

LEVEL = 'model_checking'
ASSUMPTIONS = ['the MXF file is well formed: sets with two-byte tags and lengths, no run-in, distinct instance ids',
               'sampled sizes are those the file says are displayed (what the code documents)',
               'indirect values are little or big endian strings or little endian 32-bit integers']

H = bytes.fromhex
DD = {'Picture': H('01030202010000 00060e2b3404010101'.replace(' ', '')), 'Sound': H('0103020202000000060e2b3404010101'), 'Data': H('0103020203000000060e2b3404010101'),
      'LegacyPicture': H('6f3c8ce16cef11d2807d006008143e6f'), 'LegacySound': H('78e1ebe16cef11d2807d006008143e6f'), 'Timecode': H('0103020101000000060e2b3404010101'),
      'LegacyTimecode': H('7f275e8177e511d2807f006008143e6f'), 'Edgecode': H('d2bb2af0d23411d289ee006097116212'), 'Auxiliary': H('0103020301000000060e2b3404010105'),
      'DescriptiveMetadata': H('0103020110000000060e2b3404010101')}
LAYOUT = ['FullFrame', 'SeparateFields', 'OneField', 'MixedFields', 'SegmentedFrame']
COMPONENT = {0: 'CompNull', 0x41: 'CompAlpha', 0x42: 'CompBlue', 0x46: 'CompFill', 0x47: 'CompGreen', 0x52: 'CompRed'}
PDKIND = ['TwoThreePD', 'PALPD', 'OneToOneNTSC', 'OneToOnePAL', 'VideoTapNTSC', 'OneToOneHDSixty', 'TwentyFourToSixtyPD', 'TwoToOnePD']
USAGE = {5: 'Usage_SubClip', 6: 'Usage_AdjustedClip', 7: 'Usage_TopLevel', 8: 'Usage_LowerLevel', 9: 'Usage_Template'}
PDDIR = ['TapeToFilmSpeed', 'FilmToTapeSpeed']

_n = [0]


def umid(i):
    """package id as it stands in the file"""
    return H('060a2b340101010501010f2013000000') + struct.pack('>QQ', 0xc25, i)


def clip(dd='Picture', length=10, start=0, source=None, slot=1):
    return {'kind': 'SourceClip', 'dd': DD[dd], 'length': length, 'start': start, 'source_id': source or bytes(32), 'source_slot': slot, '_dd': dd}


def seq(dd, *items, **kw):
    return {'kind': 'Sequence', 'dd': DD[dd], 'length': kw.get('length', 10), 'components': list(items), '_dd': dd}


def track(slot_id, segment, edit_rate=(25, 1), origin=0, name=None, ptn=None, kind='Track'):
    return {'kind': kind, 'slot_id': slot_id, 'segment': segment, 'edit_rate': edit_rate, 'origin': origin, 'name': name, 'ptn': ptn}


CDCI = {'SampleRate': (25, 1), 'FrameLayout': 0, 'StoredWidth': 1920, 'StoredHeight': 1080, 'ImageAspectRatio': (16, 9), 'VideoLineMap': [42, 0], 'ComponentWidth': 8, 'HorizontalSubsampling': 2}
RGBA = {'SampleRate': (24, 1), 'FrameLayout': 0, 'StoredWidth': 640, 'StoredHeight': 480, 'ImageAspectRatio': (4, 3), 'VideoLineMap': [1, 0], 'PixelLayout': [(0x52, 10), (0x47, 10), (0x42, 10)]}
PCM = {'SampleRate': (48000, 1), 'AudioSamplingRate': (48000, 1), 'Channels': 1, 'QuantizationBits': 16, 'BlockAlign': 2, 'AverageBPS': 96000}
BASE = {'CDCI': CDCI, 'MPEG2': CDCI, 'RGBA': RGBA, 'PCM': PCM, 'AES3': PCM, 'Sound': PCM, 'ANC': {'SampleRate': (25, 1)}, 'Import': {}, 'Tape': {}}
OPTIONAL = {
    'CDCI': {'Length': 77, 'LinkedSlotID': 3, 'Compression': H('0401020271010000060e2b340401010a'), 'VerticalSubsampling': 1, 'SampledWidth': 1900, 'SampledHeight': 1060, 'FrameSampleSize': 917504, 'ResolutionID': 1235},
    'RGBA': {'Length': 77, 'LinkedSlotID': 3, 'Compression': H('0401020271010000060e2b340401010a'), 'SampledWidth': 1900, 'SampledHeight': 1060, 'FrameSampleSize': 917504},
    'PCM': {'Length': 77, 'LinkedSlotID': 3}, 'ANC': {'Length': 77, 'LinkedSlotID': 3}, 'Import': {}, 'Tape': {}}
for _a, _b in (('MPEG2', 'CDCI'), ('AES3', 'PCM'), ('Sound', 'PCM')):
    OPTIONAL[_a] = OPTIONAL[_b]
U32 = [0, 1, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1]
S32 = [0, 1, -1, 255, 256, 65536, (1 << 31) - 1, -(1 << 31)]
S64 = [0, 1, -1, 255, 1 << 31, 1 << 32, (1 << 63) - 1, -(1 << 63)]
RATS = [(25, 1), (30000, 1001), (24000, 1001), (50, 2), (1, 1), (1, 25), ((1 << 31) - 1, 1), (1, (1 << 31) - 1), (0, 1)]
VALUES = {'SampleRate': RATS, 'AudioSamplingRate': RATS, 'ImageAspectRatio': RATS, 'Length': S64, 'LinkedSlotID': U32, 'StoredWidth': U32, 'StoredHeight': U32, 'SampledWidth': U32, 'SampledHeight': U32,
          'FrameLayout': range(5), 'VideoLineMap': [[0, 0], [21, 584], [-1, 5], [5, -1], [-(1 << 31), (1 << 31) - 1], [42], []], 'ComponentWidth': U32, 'HorizontalSubsampling': U32, 'VerticalSubsampling': U32, 'FrameSampleSize': S32, 'ResolutionID': S32,
          'QuantizationBits': U32, 'Channels': U32, 'AverageBPS': U32, 'BlockAlign': [0, 1, 255, 256, 65535],
          'PixelLayout': [[], [(0x52, 8)], [(0x52, 8), (0x47, 8), (0x42, 8), (0x41, 8)], [(0x46, 1)] + [(0x42, 16)] * 6, [(0x47, 255)] * 8],
          'Compression': [H('0401020271%02x0000060e2b340401010a' % i) for i in (0, 127, 255)]}


def desc(kind, **kw):
    d = dict(BASE[kind], kind=kind)
    d.update(kw)
    return d


def swap_auid(b):
    return AUID(bytes_be=bytearray(b))


class Link(object):
    """one MXF file linked; check() compares"""
    def __init__(self, packages, how=None, ama=False, raw=None):
        self.packages, self.how, self.ama, self.raw = packages, how or {}, ama, raw
        self.path = util.spath('c25-%d-%d.mxf' % (os.getpid(), _n[0]))
        _n[0] += 1

    def start(self, f, again=False):
        with open(self.path, 'wb') as g:
            g.write(self.raw if self.raw is not None else G.build(G.Sets(self.packages), **self.how))
        try:
            if self.ama:
                with contextlib.redirect_stdout(io.StringIO()):
                    mobs = f.content.create_ama_link(self.path, None)
            else:
                mobs = f.content.link_external_mxf(self.path)
        finally:
            os.unlink(self.path)
        want = [] if again else [self.mob_id(p) for p in self.packages if p.get('_new', True)]
        if [m.mob_id for m in mobs] != want:
            raise Violation('link gives %d mobs %s, should be %d' % (len(mobs), [str(m.mob_id) for m in mobs][:3], len(want)), 'mobs')

    def mob_id(self, p):
        m = aaf2.mobid.MobID()
        m.urn = 'urn:smpte:umid:' + '.'.join(p['id'].hex()[i:i + 8] for i in range(0, 64, 8))
        return m

    def check(self, f, when=''):
        for p in self.packages:
            m = f.content.mobs.get(self.mob_id(p), None)
            if m is None:
                raise Violation('no mob for package %s%s' % (p['id'].hex(), when), 'mobs')
            got, want = self.actual(m, p), self.expected(p)
            if not p.get('_new', True):     # linked from another file
                got, want = [{k: v for k, v in x.items() if not k.endswith('/path')} for x in (got, want)]
            if got != want:
                for k in want:
                    if k not in got or got[k] != want[k]:
                        raise Violation('%s: %s is %s, the file says %s%s' % (p.get('name'), k, got.get(k), want[k], when), 'value:' + k.split('/')[-1])
                raise Violation('%s: more than the file says: %s%s' % (p.get('name'), [k for k in got if k not in want], when), 'value:more')

    # what the description says

    def expected(self, p):
        out = {'class': 'MasterMob' if p['kind'] == 'Material' else 'SourceMob'}
        if p.get('name') is not None:
            out['name'] = p['name']
        for k, n in (('modified', 'LastModified'), ('created', 'CreationTime')):
            if p.get(k):
                out[n] = datetime.datetime(*p[k])
        out['UsageCode'] = USAGE[p['usage'][6]] if p.get('usage') else None
        out['AppCode'] = p.get('app')
        out['UserComments'] = [self.xtag(x) for x in p.get('comments') or []]
        out['MobAttributeList'] = [self.xtag(x) for x in p.get('attrs') or []]
        tracks = [x for x in p['tracks'] if x['kind'] == 'Track']
        out['slots'] = len(tracks)
        for i, x in enumerate(tracks):
            pre = 'slot %d/' % i
            out[pre + 'class'] = 'TimelineMobSlot'
            for k, n in (('slot_id', 'SlotID'), ('origin', 'Origin'), ('name', 'SlotName'), ('ptn', 'PhysicalTrackNumber')):
                out[pre + n] = x[k] or None if n == 'SlotName' else x[k]
            out[pre + 'EditRate'] = x['edit_rate']
            self.xseg(x['segment'], pre, out)
        if p.get('desc'):
            self.xdesc(p['desc'], 'descriptor/', out)
        else:
            out['descriptor'] = None
        return out

    def xtag(self, x):
        return (x[0], x[2], [self.xtag(i) for i in x[3]] if len(x) > 3 else [])

    def xseg(self, x, pre, out):
        k = x['kind']
        out[pre + 'segment'] = k
        out[pre + 'DataDefinition'] = x['_dd']
        out[pre + 'Length'] = x['length']
        if k == 'Sequence':
            out[pre + 'Components'] = len(x['components'])
            for i, c in enumerate(x['components']):
                self.xseg(c, '%s%d/' % (pre, i), out)
        elif k == 'EssenceGroup':
            out[pre + 'Choices'] = len(x['choices'])
            for i, c in enumerate(x['choices']):
                self.xseg(c, '%s%d/' % (pre, i), out)
        elif k == 'SourceClip':
            out[pre + 'StartTime'], out[pre + 'SourceMobSlotID'] = x['start'], x['source_slot']
            out[pre + 'SourceID'] = x['source_id'].hex()
        elif k == 'Timecode':
            out[pre + 'Start'], out[pre + 'FPS'], out[pre + 'Drop'] = x['tc_start'], x['fps'], bool(x['drop'])
        elif k == 'Pulldown':
            out[pre + 'PulldownKind'], out[pre + 'PulldownDirection'], out[pre + 'PhaseFrame'] = PDKIND[x['pd_kind']], PDDIR[x['pd_dir']], x['pd_phase']
            self.xseg(x['input'], pre + 'input/', out)
        elif k == 'ScopeReference':
            out[pre + 'RelativeScope'], out[pre + 'RelativeSlot'] = x['scope'], x['scope_slot']

    CLASS = {'CDCI': 'CDCIDescriptor', 'MPEG2': 'CDCIDescriptor', 'RGBA': 'RGBADescriptor', 'PCM': 'PCMDescriptor', 'AES3': 'PCMDescriptor', 'Sound': 'PCMDescriptor', 'ANC': 'ANCDataDescriptor',
             'Import': 'ImportDescriptor', 'Tape': 'TapeDescriptor', 'Multiple': 'MultipleDescriptor'}

    def keys(self, kind):
        if kind == 'Multiple':
            return ['SampleRate', 'Length']
        return list(BASE[kind]) + [k for k in OPTIONAL[kind]]

    def xdesc(self, d, pre, out):
        k = d['kind']
        out[pre + 'class'] = self.CLASS[k]
        for n in self.keys(k):
            v = d.get(n)
            if n == 'Length' and v is None:
                v = 0
            if n == 'FrameLayout':
                v = LAYOUT[v]
            if n == 'PixelLayout':
                v = [(COMPONENT[a], b) for a, b in v]
            if n == 'VideoLineMap':
                v = (v + [0, 0])[:2]
            if n == 'Compression' and v is not None:
                v = swap_auid(v)
            if n == 'ResolutionID' and k == 'MPEG2':
                v = 4076
            out[pre + n] = v
        if k == 'CDCI':
            out[pre + 'urls'] = d.get('locators') or []
        if k == 'Multiple':
            out[pre + 'files'] = len(d['files'])
            for i, x in enumerate(d['files']):
                self.xdesc(x, '%s%d/' % (pre, i), out)
        if k in ('PCM', 'AES3', 'Sound', 'RGBA', 'Multiple', 'Import') or (self.ama and k in ('CDCI', 'MPEG2')):
            out[pre + 'path'] = True
        if self.ama and k in ('CDCI', 'MPEG2', 'RGBA', 'PCM', 'AES3', 'Sound', 'Multiple'):
            out[pre + 'guid'] = AUID('60eb8921-2a02-4406-891c-d9b6a6ae0645')

    # what the mob says

    def actual(self, m, p):
        def val(o, n):
            v = o.get(n, None)
            return v.value if v is not None else None
        out = {'class': type(m).__name__}
        if p.get('name') is not None:
            out['name'] = m.name
        for k, n in (('modified', 'LastModified'), ('created', 'CreationTime')):
            if p.get(k):
                out[n] = val(m, n)
        out['UsageCode'], out['AppCode'] = val(m, 'UsageCode'), val(m, 'AppCode')
        for n in ('UserComments', 'MobAttributeList'):
            out[n] = [self.atag(x) for x in val(m, n) or []]
        slots = list(m.slots)
        out['slots'] = len(slots)
        for i, s in enumerate(slots):
            pre = 'slot %d/' % i
            out[pre + 'class'] = type(s).__name__
            for n in ('SlotID', 'Origin', 'SlotName', 'PhysicalTrackNumber'):
                out[pre + n] = val(s, n) or None if n == 'SlotName' else val(s, n)
            out[pre + 'EditRate'] = pair(val(s, 'EditRate'))
            self.aseg(s.segment, pre, out)
        d = m.get('EssenceDescription', None)
        if d is None or d.value is None:
            out['descriptor'] = None
        else:
            self.adesc(d.value, p.get('desc') or {'kind': 'Tape'}, 'descriptor/', out)
        return out

    def atag(self, x):
        a = x.get('TaggedValueAttributeList', None)
        return (x.name, x.value, [self.atag(i) for i in a.value] if a is not None else [])

    def aseg(self, x, pre, out):
        k = type(x).__name__
        out[pre + 'segment'] = k
        out[pre + 'DataDefinition'] = x.media_kind
        out[pre + 'Length'] = x.length
        for n in ('Components', 'Choices'):
            if k == {'Components': 'Sequence', 'Choices': 'EssenceGroup'}[n]:
                items = list(x[n].value)
                out[pre + n] = len(items)
                for i, c in enumerate(items):
                    self.aseg(c, '%s%d/' % (pre, i), out)
        names = {'SourceClip': ['StartTime', 'SourceMobSlotID'], 'Timecode': ['Start', 'FPS', 'Drop'], 'Pulldown': ['PulldownKind', 'PulldownDirection', 'PhaseFrame'], 'ScopeReference': ['RelativeScope', 'RelativeSlot']}.get(k, [])
        for n in names:
            out[pre + n] = x[n].value
        if k == 'SourceClip':
            out[pre + 'SourceID'] = x.mob_id.urn.split(':')[-1].replace('.', '')
        if k == 'Pulldown':
            self.aseg(x['InputSegment'].value, pre + 'input/', out)

    def adesc(self, d, spec, pre, out):
        k = spec['kind']
        out[pre + 'class'] = d.classdef.class_name
        for n in self.keys(k):
            p = d.get(n, None)
            v = p.value if p is not None else None
            if n in ('SampleRate', 'AudioSamplingRate', 'ImageAspectRatio'):
                v = pair(v)
            if n == 'PixelLayout':
                v = [(x['Code'], x['Size']) for x in v if x['Code'] != 'CompNull']
            if n == 'VideoLineMap':
                v = list(v)
            out[pre + n] = v
        p = d.get('Locator', None)
        urls = [x['URLString'].value for x in p.value] if p is not None else []
        own = 'file://' + self.path
        if k == 'CDCI':
            out[pre + 'urls'] = [u for u in urls if u != own]
        if k == 'Multiple':
            files = list(d['FileDescriptors'].value)
            out[pre + 'files'] = len(files)
            for i, (x, y) in enumerate(zip(files, spec['files'])):
                self.adesc(x, y, '%s%d/' % (pre, i), out)
        if k in ('PCM', 'AES3', 'Sound', 'RGBA', 'Multiple', 'Import') or (self.ama and k in ('CDCI', 'MPEG2')):
            out[pre + 'path'] = own in urls
        if self.ama and k in ('CDCI', 'MPEG2', 'RGBA', 'PCM', 'AES3', 'Sound', 'Multiple'):
            out[pre + 'guid'] = d['MediaContainerGUID'].value


def pair(v):
    return v if v is None else (v.numerator, v.denominator)


# ---------------------------------------------------------------- running

def run_links(case, t):
    """case: what, list of arguments; each makes one or more links, all into one file"""
    what, args = case
    p = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
    f = aaf2.open(p, 'r+')
    try:
        try:
            links = []
            for i, a in enumerate(args):
                for l in MAKERS[what](i, *a):
                    t.step()
                    l.start(f)
                    l.check(f)
                    links.append(l)
                    t.state((what,) + tuple(map(str, a)))
            for l in links[:2]:
                n = len(f.content.mobs)
                l.start(f, True)
                if len(f.content.mobs) != n:
                    raise Violation('linking again adds mobs', 'again')
                l.check(f, ' after linking again')
            f.close()
            g = aaf2.open(p, 'r+')
            try:
                if len(g.content.mobs) != len({x['id'] for l in links for x in l.packages}):
                    raise Violation('%d mobs after reopening' % len(g.content.mobs), 'mobs')
                for l in links:
                    l.check(g, ' after reopening')
                n = len(g.content.mobs)
                links[0].start(g, True)
                links[0].check(g, ' after linking again in the reopened file')
                if len(g.content.mobs) != n:
                    raise Violation('linking again adds mobs', 'again')
            finally:
                g.f.close()
        except Exception as e:
            if len(args) > 1:
                for a in args:
                    run_links([what, [a]], t)
            if isinstance(e, Violation):
                raise Violation('%s %s: %s' % (what, args[0] if len(args) == 1 else '(several)', e.msg), e.sig, case=[what, args])
            raise Violation('%s %s: %s: %s [%s]' % (what, args[0] if len(args) == 1 else '(several)', type(e).__name__, e, tb_tail(e)), 'exc:%s@%s' % (type(e).__name__, exc_site(e)), case=[what, args])
    finally:
        f.f.close()
        os.unlink(p)


def source(i, d, tracks=None, **kw):
    dd = {'PCM': 'Sound', 'AES3': 'Sound', 'Sound': 'Sound', 'ANC': 'Data'}.get(d['kind'] if d else None, 'Picture')
    return dict({'kind': 'Source', 'id': umid(i), 'name': 'file %d' % i, 'tracks': tracks if tracks is not None else [track(1, seq(dd, clip(dd)))], 'desc': d}, **kw)


def make_desc(i, kind, opts, name=None, value=None, ama=False, loc=0):
    """one descriptor: its optional properties, one set to a value"""
    d = desc(kind, **{k: OPTIONAL[kind][k] for k in opts})
    if name:
        d[name] = list(VALUES[name])[value]
    if loc:
        d['locators'] = ['file:///a/b%d.mxf' % j for j in range(loc - 1)]
    yield Link([source(i, d)], ama=ama)


def make_multi(i, kinds, ama, length):
    yield Link([source(i, {'kind': 'Multiple', 'SampleRate': (25, 1), 'Length': length, 'files': [desc(k, LinkedSlotID=j + 1) if k != 'Tape' else desc(k) for j, k in enumerate(kinds)]})], ama=ama)


SEG_VALUES = {
    'SourceClip': {'length': S64, 'start': S64, 'source_slot': U32, 'source_id': [bytes(32), umid(0xffffffff), bytes(range(32)), b'\xff' * 32]},
    'Filler': {'length': S64}, 'Sequence': {'length': S64}, 'EssenceGroup': {'length': S64},
    'Timecode': {'length': S64, 'tc_start': S64, 'fps': [0, 1, 24, 25, 30, 60, 65535], 'drop': [0, 1]},
    'Pulldown': {'length': S64, 'pd_kind': range(len(PDKIND)), 'pd_dir': range(2), 'pd_phase': S32},
    'ScopeReference': {'length': S64, 'scope': U32, 'scope_slot': U32},
}


def segment(kind, dd='Picture'):
    s = {'kind': kind, 'dd': DD[dd], '_dd': dd, 'length': 9}
    s.update({'SourceClip': lambda: clip(dd, 9, 3, umid(0xabcdef), 2), 'Filler': dict, 'Sequence': lambda: {'components': [clip(dd, 4), {'kind': 'Filler', 'dd': DD[dd], '_dd': dd, 'length': 5}]},
              'EssenceGroup': lambda: {'choices': [clip(dd, 9, 0, umid(0xabc0)), clip(dd, 9, 1, umid(0xabc1))]}, 'Timecode': lambda: {'tc_start': 90000, 'fps': 25, 'drop': 0},
              'Pulldown': lambda: {'pd_kind': 0, 'pd_dir': 1, 'pd_phase': 2, 'input': clip(dd, 12, 1, umid(0xabcdef), 7)}, 'ScopeReference': lambda: {'scope': 1, 'scope_slot': 2}}[kind]())
    return s


def make_segment(i, kind, dd, name=None, value=None, nest=None):
    s = segment(kind, dd)
    if name:
        s[name] = list(SEG_VALUES[kind][name])[value]
    if nest == 'Sequence':
        s = seq(dd, s, segment('Filler', dd), segment(kind, dd))
    elif nest == 'EssenceGroup':
        s = {'kind': 'EssenceGroup', 'dd': DD[dd], '_dd': dd, 'length': 9, 'choices': [s, segment('SourceClip', dd)]}
    elif nest == 'Pulldown':
        s = dict(segment('Pulldown', dd), input=s)
    yield Link([source(i, desc('Tape'), [track(1, s)])])


TRACK_VALUES = {'slot_id': [1, 2, 255, 65536, (1 << 31) - 1, (1 << 32) - 1], 'edit_rate': RATS, 'origin': S64, 'name': [None, 'V1', 'é\u4e2d', '\U0001f3ac', 'x' * 3000], 'ptn': [None] + U32}
PKG_VALUES = {'name': [None, 'a', 'é\u4e2d\U0001f3ac', 'n' * 5000, 'n' * 16383, 'n' * 16384, 'n' * 32766], 'modified': [(1970, 1, 1, 0, 0, 0), (2026, 12, 31, 23, 59, 59), (2024, 2, 29, 12, 30, 1), (9999, 1, 1, 1, 1, 1)], 'created': [(1970, 1, 1, 0, 0, 0), (2000, 2, 29, 23, 0, 59), (1, 1, 1, 0, 0, 0)],
              'usage': [H('0d0101020101%02x00060e2b3404010101' % i) for i in (5, 6, 7, 8, 9)], 'app': S32,
              'comments': [[], [('Name', 'le', 'value')], [('Name', 'be', 'value')], [('n', 'int', 5), ('m', 'int', -1), ('k', 'le', ''), ('é', 'be', '\u4e2d\U0001f3ac')], [('n%d' % j, 'le', 'v' * j) for j in range(20)]],
              'attrs': [[], [('_A', 'int', 1)], [('_A', 'int', 1, [('_B', 'le', 'x'), ('_C', 'int', 3, [('_D', 'be', 'y')])])], [('_A', 'int', 0, [('_B', 'le', ''), ('_C', 'int', 0), ('_D', 'be', ''), ('_E', 'int', -1)])], [('_Z', 'le', '')]]}


def make_track(i, name, value):
    yield Link([source(i, desc('PCM'), [track(1, seq('Sound', clip('Sound'))) if name is None else dict(track(1, seq('Sound', clip('Sound'))), **{name: TRACK_VALUES[name][value]})])])


def make_package(i, kind, name, value):
    p = source(i, desc('Tape') if kind == 'Source' else None, kind=kind)
    p[name] = PKG_VALUES[name][value]
    yield Link([p])


def make_tracks(i, kinds):
    yield Link([source(i, desc('Tape'), [track(j + 1, segment('Filler') if k != 't' else segment('Timecode', 'Timecode'), kind={'s': 'StaticTrack', 'e': 'EventTrack'}.get(k, 'Track')) for j, k in enumerate(kinds)])])


def chain(i, shape):
    """packages linked to each other; shape: for each package the ones (by number) its tracks lead to"""
    out = []
    for j, targets in enumerate(shape):
        base = i * 16
        out.append(dict({'kind': 'Material' if j == 0 else 'Source', 'id': umid(base + j), 'name': 'p%d' % j,
                         'tracks': [track(n + 1, seq('Sound', clip('Sound', 10 + n, n, umid(base + x), 1)), ptn=n + 1) for n, x in enumerate(targets)] or [track(1, seq('Sound', clip('Sound')))]},
                        desc=None if j == 0 else desc('PCM') if targets else desc('Import')))
    return out


def make_chain(i, shape):
    yield Link(chain(i + 1000, shape))


def make_pair(i, common):
    """two files with some packages in common"""
    a = chain(i + 2000, [[1], [2], []])
    b = chain(i + 3000, [[1], [2], []])
    for j in common:
        b[j] = dict(a[j], _new=False)
    yield Link(a)
    yield Link(b)


def small(i):
    return [{'kind': 'Source', 'id': umid(5000000 + i), 'name': 'small', 'tracks': [track(1, segment('Timecode', 'Timecode'))], 'desc': desc('PCM', Length=5)}]


def make_order(i, order, rotate):
    yield Link(small(i), {'order': order, 'rotate': rotate})


def make_orders(i, first, rotate):
    """all orders of the sets of a small file that begin with one; only the last is linked, of
    the others the metadata read is compared with that of the first"""
    S = G.Sets(small(i))
    n = len(S.out)
    ref = None
    p = util.spath('c25-%d.order.mxf' % os.getpid())
    for rest in itertools.permutations([x for x in range(n) if x != first]):
        with open(p, 'wb') as g:
            g.write(G.build(S, order=[first] + list(rest), rotate=rotate))
        m = mxf.MXFFile(p)
        got = {str(k): (type(v).__name__, sorted((a, str(b)) for a, b in v.data.items())) for k, v in m.objects.items()}
        if ref is None:
            ref = got
            if len(got) != n:
                raise Violation('%d of %d sets are read' % (len(got), n), 'order')
        if got != ref or m.preface is None:
            raise Violation('order %s of the sets: other metadata' % ([first] + list(rest),), 'order')
    os.unlink(p)
    yield Link(small(i), {'order': [first] + list(rest), 'rotate': rotate})


def tiny(i):
    """ends with a set that is as short as can be"""
    return [{'kind': 'Source', 'id': umid(6000000 + i), 'name': 'tiny', 'tracks': [track(1, segment('Timecode', 'Timecode'))], 'desc': {'kind': 'Tape'}}]


def make_packing(i, kag, form, gap, index, containers, dark, fills, last, body, status):
    pk = tiny(i)
    S = G.Sets(pk)
    n = len(S.out)
    tape = [j for j, s in enumerate(S.out) if s[0] == 'Tape'][0]
    order = list(range(n))
    if last:
        order = [j for j in order if j != tape] + [tape]
    # metadata repeated in the body: as it was while recording
    stale = [dict(pk[0], name='stale', tracks=[track(1, dict(segment('Timecode', 'Timecode'), length=-1, tc_start=1))])]
    old = G.Sets(stale)
    assert len(old.out) == n
    how = {'kag': kag, 'form': form, 'fill_after_pack': gap, 'index': index, 'containers': containers, 'dark': dark, 'order': order, 'status': status,
           'fill': {'none': {}, 'first': {0: 0}, 'many': {j: 40 * j for j in range(n)}}[fills]}
    if status == 4:
        how.update(body=G.metadata(old, form=form) if body else None, footer=G.metadata(S, form=form) if body else None, essence=bytes(util.pattern(3, 700)))
        raw = G.build(S, **how)
    else:
        # the header was not completed: what counts is in the footer
        how.update(body=G.metadata(old, form=form) if body else None, footer=G.metadata(S, form=form, order=order), essence=bytes(util.pattern(3, 700)))
        raw = G.build(old, **how)
    yield Link(pk, raw=raw)


def make_primer(i, rev, dyn, form, set_form):
    pk = [source(7000000 + i, desc('CDCI', **OPTIONAL['CDCI']), app=7, attrs=[('_A', 'int', 1, [('_B', 'le', 'x')])])]
    S = G.Sets(pk, dyn_from=dyn)
    yield Link(pk, raw=G.build(S, primer_rev=rev, form=form, set_form=set_form))


MAKERS = {'descriptor': make_desc, 'multiple': make_multi, 'segment': make_segment, 'track': make_track, 'package': make_package, 'tracks': make_tracks, 'chain': make_chain, 'pair': make_pair,
          'orders': make_orders, 'packing': make_packing, 'primer': make_primer}


def batches(what, gen, n):
    def cases():
        out = []
        for a in gen():
            out.append(list(a))
            if len(out) == n:
                yield [what, out]
                out = []
        if out:
            yield [what, out]
    return cases


def descs(full):
    for kind in sorted(BASE):
        opts = sorted(OPTIONAL[kind])
        for r in range(len(opts) + 1):
            for c in itertools.combinations(opts, r):
                if full or len(opts) < 7 or r <= 1 or r >= len(opts) - 1:
                    yield kind, c
        for name in sorted(set(BASE[kind]) | set(opts)):
            for v in range(len(list(VALUES[name]))):
                if name == 'ResolutionID' and kind == 'MPEG2':
                    continue
                yield kind, [], name, v
        for ama in (False, True):
            for loc in range(4):
                if kind == 'CDCI' or (loc == 0 and kind != 'Tape'):
                    yield kind, [], None, None, ama, loc


def multis(full):
    kinds = ['CDCI', 'PCM', 'ANC', 'MPEG2', 'RGBA', 'AES3', 'Sound']
    for r in range(1, 4 if full else 3):
        for c in itertools.product(kinds, repeat=r):
            yield c, False, 9
    yield ('CDCI', 'PCM'), True, None
    yield ('CDCI', 'PCM', 'PCM'), True, -1


def segments(full):
    for kind in sorted(SEG_VALUES):
        for dd in sorted(DD):
            yield kind, dd
        for name in sorted(SEG_VALUES[kind]):
            for v in range(len(list(SEG_VALUES[kind][name]))):
                yield kind, 'Picture', name, v
        for nest in ('Sequence', 'EssenceGroup', 'Pulldown'):
            if nest == 'EssenceGroup' and kind != 'SourceClip':
                continue    # holds source references only
            yield kind, 'Sound', None, None, nest


def tracks():
    for name in sorted(TRACK_VALUES):
        for v in range(len(TRACK_VALUES[name])):
            yield name, v


def packages():
    for kind in ('Material', 'Source'):
        for name in sorted(PKG_VALUES):
            for v in range(len(PKG_VALUES[name])):
                yield kind, name, v


def track_words(full):
    for n in range(5 if full else 4):
        for w in itertools.product('pste', repeat=n):
            yield [''.join(w)]


def chains(full):
    n = 4 if full else 3
    for size in range(1, n + 1):
        opts = []
        for j in range(size):
            later = list(range(j + 1, size))
            opts.append([list(c) for r in range(0, 3) for c in itertools.product(later, repeat=r)])
        for shape in itertools.product(*opts):
            yield [list(shape)]


def pairs():
    for r in range(0, 4):
        for c in itertools.combinations(range(3), r):
            yield [list(c)]


def orders(full):
    n = len(G.Sets(small(0)).out)
    for first in range(n):
        for rot in range(9) if full else (0, 1, 4):
            yield first, rot


def packings(full):
    for kag in (1, 0, 16, 256, 512, 4096, 65536) if full else (0, 1, 512):
        for form in (0, 1, 2, 3, 4, 5, 7, 8) if full else (0, 4, 8):
            if form == 1:
                continue        # one byte cannot hold the lengths
            for gap in (False, True):
                for index in (0, 30, 3000) if full else (0, 30):
                    for containers in (0, 1, 2, 30) if full else (1, 30):
                        for dark in (False, True):
                            for fills in ('none', 'first', 'many') if full else ('none', 'many'):
                                for last in (False, True):
                                    for body in (False, True):
                                        for status in (4, 3, 1) if full else (4, 1):
                                            yield kag, form, gap, index, containers, dark, fills, last, body, status


def primers():
    for rev in (False, True):
        for dyn in (0x8000, 0xfff0, 0x9123):
            for form in (0, 2, 3, 4, 8):
                for sf in (2, 3, 4, 5, 8):
                    yield rev, dyn, form, sf


# ---------------------------------------------------------------- operational patterns

def run_op(case, t):
    """case: prefix number, complexity, where: the pattern in the header or in the preface"""
    version, c, where = case
    p = util.spath('c25-%d.op.mxf' % os.getpid())
    for pc in range(0, 6):
        for q in (0, 3, 255):
            t.step()
            op = H('060e2b34040101%02x0d010201' % version) + bytes([c, pc, q, 0])
            S = G.Sets(small(0))
            if where == 'preface':
                i = [j for j, s in enumerate(S.out) if s[0] == 'Preface'][0]
                S.out[i] = ('Preface', [(tag, op if tag == 0x3b09 else d) for tag, d in S.out[i][1]])
                raw = G.build(S, status=1)
            else:
                raw = G.build(S, op=op)
            with open(p, 'wb') as g:
                g.write(raw)
            got = mxf.MXFFile(p).operation_pattern
            want = None
            if version in (1, 2, 3):
                if 1 <= c <= 3 and 1 <= pc <= 3:
                    want = 'OP%d%s' % (c, 'abc'[pc - 1])
                elif c == 0x10:
                    want = 'OPAtom'
            if got != want:
                raise Violation('pattern %s in the %s is taken as %s, should be %s' % (op.hex(), where, got, want), 'op')
    # a file that is no OPAtom is refused by link_external_mxf
    os.unlink(p)
    t.state(tuple(case))


def op_cases():
    for version in (0, 1, 2, 3, 4):
        for c in range(0, 0x80):
            if version == 1 or c in (0, 1, 2, 3, 4, 0x10, 0x11):
                for where in ('header', 'preface'):
                    yield [version, c, where]


def spaces(tier):
    full = tier != 'quick'
    lim = 120 if not full else 900
    return [
        Space('descriptors', batches('descriptor', lambda: descs(full), 60), run_links, 'descriptor kind x optional properties x boundary values x locators x kind of link', cpu_limit=lim),
        Space('multiple', batches('multiple', lambda: multis(full), 40), run_links, 'multiple descriptors: every word of kinds', cpu_limit=lim),
        Space('segments', batches('segment', lambda: segments(full), 40), run_links, 'segment kind x data definition, boundary values, nesting', cpu_limit=lim),
        Space('tracks', batches('track', tracks, 40), run_links, 'track properties: boundary values', cpu_limit=lim),
        Space('words', batches('tracks', lambda: track_words(full), 40), run_links, 'every word of track kinds', cpu_limit=lim),
        Space('packages', batches('package', packages, 40), run_links, 'package properties: boundary values, comments, attributes', cpu_limit=lim),
        Space('chains', batches('chain', lambda: chains(full), 30), run_links, 'package graphs: material to file to tape', cpu_limit=lim),
        Space('pairs', batches('pair', pairs, 4), run_links, 'two files with packages in common', cpu_limit=lim),
        Space('orders', batches('orders', lambda: orders(full), 1), run_links, 'every order of the sets x rotation of their properties', cpu_limit=lim),
        Space('packing', batches('packing', lambda: packings(full), 64), run_links, 'grid x length form x fill x index x containers x dark sets x last set x repeated metadata x status', cpu_limit=lim),
        Space('primer', batches('primer', primers, 50), run_links, 'primer order x dynamic tags x length forms', cpu_limit=lim),
        Space('patterns', op_cases, run_op, 'operational pattern labels x place', cpu_limit=lim),
    ]
