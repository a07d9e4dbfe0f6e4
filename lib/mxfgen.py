"""Builds MXF files from a description of their metadata (independent of aaf2).

A description is a list of packages (dicts); sets() turns it into metadata sets,
build() packs those into a file: partition packs, primer, sets in any order, fill,
dark sets, index, body and footer partitions, any form of length."""
import struct

H = bytes.fromhex


def key(n):
    return H('060e2b34025301010d01010101%02x%02x00' % n)


KEYS = {k: key(v) for k, v in dict(
    Preface=(1, 0x2f), ContentStorage=(1, 0x18), Material=(1, 0x36), Source=(1, 0x37), Track=(1, 0x3b), StaticTrack=(1, 0x3a), EventTrack=(1, 0x39),
    Sequence=(1, 0x0f), SourceClip=(1, 0x11), Timecode=(1, 0x14), Pulldown=(1, 0x0c), Filler=(1, 0x09), ScopeReference=(1, 0x0d), EssenceGroup=(1, 0x05),
    Multiple=(1, 0x44), CDCI=(1, 0x28), RGBA=(1, 0x29), ANC=(1, 0x5c), MPEG2=(1, 0x51), PCM=(1, 0x48), AES3=(1, 0x47), Sound=(1, 0x42), Import=(1, 0x4a), Tape=(1, 0x2e),
    NetworkLocator=(1, 0x32), EssenceData=(1, 0x23), TaggedValue=(1, 0x3f), Identification=(1, 0x30)).items()}
DARK = H('060e2b34025301010d01070a0b0c0d0e')
FILL = H('060e2b34010101020301021001000000')
PRIMER = H('060e2b34020501010d01020101050100')
INDEX = H('060e2b34025301010d01020101100100')
ESSENCE = H('060e2b34010201010d01030115010500')
RIP = H('060e2b34020501010d01020101110100')
OPATOM = H('060e2b34040101010d01020110030000')
DYNAMIC = {'FrameSampleSize': H('a024006094eb75cbce2aca5051ab11d3'), 'ResolutionID': H('a024006094eb75cbce2aca4d51ab11d3'), 'AppCode': H('a022006094eb75cb96c469924f6211d3'),
           'SubDescriptors': H('060e2b34010101090601010406100000'), 'MobAttributeList': H('a01c0004ac969f506095818347b111d4'), 'TaggedValueAttributeList': H('a01c0004ac969f506095818547b111d4'),
           'unknown': H('060e2b3401010105060101047f7f0000')}


def ber(n, form=0):
    """length in its shortest form or in form bytes"""
    if not form and n < 128:
        return bytes([n])
    k = form or (n.bit_length() + 7) // 8
    return bytes([0x80 | k]) + n.to_bytes(k, 'big')


def u8(x): return struct.pack('>B', x)
def u16(x): return struct.pack('>H', x)
def u32(x): return struct.pack('>I', x)
def s32(x): return struct.pack('>i', x)
def s64(x): return struct.pack('>q', x)
def rat(x): return struct.pack('>ii', *x)
def utf16(x): return x.encode('utf-16-be')
def text(x): return x.encode('utf-16-be') + b'\0\0'
def swap(b): return b[8:] + b[:8]
def stamp(x): return struct.pack('>HBBBBBB', x[0], x[1], x[2], x[3], x[4], x[5], 0)
def refs(x): return u32(len(x)) + u32(16) + b''.join(x)
def linemap(x): return u32(len(x)) + u32(4) + b''.join(s32(i) for i in x)
def pixels(x): return (bytes(b for p in x for b in p) + bytes(16))[:16]


# tag and encoding of the plain properties of each set
PLAIN = {
    'package': [('name', 0x4402, text), ('modified', 0x4404, stamp), ('created', 0x4405, stamp), ('usage', 0x4408, bytes)],
    'track': [('slot_id', 0x4801, u32), ('name', 0x4802, text), ('ptn', 0x4804, u32), ('edit_rate', 0x4b01, rat), ('origin', 0x4b02, s64)],
    'component': [('dd', 0x0201, swap), ('length', 0x0202, s64), ('start', 0x1201, s64), ('source_slot', 0x1102, u32), ('source_id', 0x1101, bytes),
                  ('tc_start', 0x1501, s64), ('fps', 0x1502, u16), ('drop', 0x1503, u8), ('pd_kind', 0x0d02, u8), ('pd_dir', 0x0d03, u8), ('pd_phase', 0x0d04, s32),
                  ('scope', 0x0e01, u32), ('scope_slot', 0x0e02, u32)],
    'descriptor': [('SampleRate', 0x3001, rat), ('Length', 0x3002, s64), ('LinkedSlotID', 0x3006, u32), ('Container', 0x3004, bytes),
                   ('Compression', 0x3201, swap), ('StoredHeight', 0x3202, u32), ('StoredWidth', 0x3203, u32), ('SampledHeight', 0x3208, u32), ('SampledWidth', 0x3209, u32),
                   ('FrameLayout', 0x320c, u8), ('VideoLineMap', 0x320d, linemap), ('ImageAspectRatio', 0x320e, rat),
                   ('ComponentWidth', 0x3301, u32), ('HorizontalSubsampling', 0x3302, u32), ('VerticalSubsampling', 0x3308, u32), ('PixelLayout', 0x3401, pixels),
                   ('QuantizationBits', 0x3d01, u32), ('Locked', 0x3d02, u8), ('AudioSamplingRate', 0x3d03, rat), ('Channels', 0x3d07, u32), ('AverageBPS', 0x3d09, u32), ('BlockAlign', 0x3d0a, u16)],
}
COMPONENTS = {'Sequence', 'SourceClip', 'Timecode', 'Pulldown', 'Filler', 'ScopeReference', 'EssenceGroup'}


class Sets(object):
    """metadata sets of packages: list of (key, [(tag, bytes)])"""
    def __init__(self, packages, salt=0, dyn_from=0x8000):
        self.out, self.n, self.salt = [], 0, salt
        self.dyn = {name: dyn_from + i for i, name in enumerate(sorted(DYNAMIC))}
        ids = [self.package(p) for p in packages]
        cs = self.add('ContentStorage', [(0x1901, refs(ids)), (0x1902, refs([]))])
        self.preface = self.add('Preface', [(0x3b03, cs), (0x3b05, u16(258)), (0x3b09, OPATOM)])

    def add(self, kind, props):
        self.n += 1
        uid = H('a5c31d77%08x%08x%08x' % (self.salt, 0x80000000, self.n))
        self.out.append((kind, [(0x3c0a, uid)] + props))
        return uid

    def plain(self, what, d):
        return [(tag, enc(d[name])) for name, tag, enc in PLAIN[what] if d.get(name) is not None]

    def package(self, p):
        props = [(0x4401, p['id'])] + self.plain('package', p)
        if p.get('comments') is not None:
            props.append((0x4406, refs([self.tagged(x) for x in p['comments']])))
        if p.get('attrs') is not None:
            props.append((self.dyn['MobAttributeList'], refs([self.tagged(x) for x in p['attrs']])))
        if p.get('app') is not None:
            props.append((self.dyn['AppCode'], s32(p['app'])))
        props.append((0x4403, refs([self.track(x) for x in p['tracks']])))
        if p.get('desc') is not None:
            props.append((0x4701, self.descriptor(p['desc'])))
        return self.add(p['kind'], props)

    def track(self, x):
        props = self.plain('track', x)
        props.append((0x4803, self.segment(x['segment'])))
        return self.add(x.get('kind', 'Track'), props)

    def segment(self, x):
        props = self.plain('component', x)
        if 'components' in x:
            props.append((0x1001, refs([self.segment(i) for i in x['components']])))
        if 'choices' in x:
            props.append((0x0501, refs([self.segment(i) for i in x['choices']])))
        if 'input' in x:
            props.append((0x0d01, self.segment(x['input'])))
        return self.add(x['kind'], props)

    def descriptor(self, x):
        props = self.plain('descriptor', x)
        for name in ('FrameSampleSize', 'ResolutionID'):
            if x.get(name) is not None:
                props.append((self.dyn[name], s32(x[name])))
        if 'files' in x:
            props.append((0x3f01, refs([self.descriptor(i) for i in x['files']])))
        if x.get('locators') is not None:
            props.append((0x2f01, refs([self.add('NetworkLocator', [(0x4001, text(u))]) for u in x['locators']])))
        return self.add(x['kind'], props)

    def tagged(self, x):
        """x: name, kind of value, value, attributes"""
        name, kind, value = x[:3]
        ty = {'le': H('4c0002100100000000060e2b3401040101'), 'be': H('420110020000000000060e2b3401040101'), 'int': H('4c0007010100000000060e2b3401040101')}[kind]
        data = {'le': lambda: value.encode('utf-16-le') + b'\0\0', 'be': lambda: text(value), 'int': lambda: struct.pack('<i', value)}[kind]()
        props = [(0x5001, text(name)), (0x5003, ty + data)]
        if len(x) > 3:
            props.append((self.dyn['TaggedValueAttributeList'], refs([self.tagged(i) for i in x[3]])))
        return self.add('TaggedValue', props)


def klv(k, data, form=0):
    return k + ber(len(data), form) + data


def encode_set(s, form, rotate=0, extra=()):
    kind, props = s
    props = list(props) + list(extra)
    r = rotate % len(props)
    props = props[r:] + props[:r]
    k = KEYS[kind] if kind in KEYS else DARK
    return klv(k, b''.join(u16(t) + u16(len(d)) + d for t, d in props), form)


def partition(kind, status, kag, this=0, prev=0, footer=0, hbc=0, ibc=0, op=OPATOM, containers=1, form=0, sid=0):
    data = struct.pack('>HHIQQQQQIQI', 1, 2, kag, this, prev, footer, hbc, ibc, 1 if ibc else 0, 0, sid) + op + u32(containers) + u32(16) + b''.join(H('060e2b34040101010d010301020600%02x' % i) for i in range(containers))
    return klv(H('060e2b34020501010d01020101%02x%02x00' % (kind, status)), data, form)


def pad(n, kag, form=4):
    """fill taking a position n to the grid"""
    if kag <= 1 or n % kag == 0:
        return b''
    size = kag - n % kag
    while size < 17 + form:
        size += kag
    return FILL + ber(size - 17 - form, form) + bytes(size - 17 - form)


def metadata(S, sets=None, order=None, form=0, rotate=0, dark=False, fill=(), primer_rev=False, set_form=None):
    """primer and sets; fill: positions (numbers of sets) before which a fill item of that size is put"""
    sets = S.out if sets is None else sets
    used = []
    for kind, props in sets:
        for t, d in props:
            if t not in used:
                used.append(t)
    names = {v: k for k, v in S.dyn.items()}
    if dark:
        used.append(S.dyn['unknown'])
    if primer_rev:
        used.reverse()
    out = klv(PRIMER, u32(len(used)) + u32(18) + b''.join(u16(t) + (DYNAMIC[names[t]] if t in names else H('060e2b34010101020f0f0f0f0000%04x' % t)) for t in used), form)
    fill = dict(fill)
    for pos, i in enumerate(order if order is not None else range(len(sets))):
        if pos in fill:
            out += klv(FILL, bytes(fill[pos]), form)
        if dark:
            out += encode_set(('dark', [(0x3c0a, H('dd%030x' % pos)), (S.dyn['unknown'], b'dark'), (0x0102, b'')]), form)
        out += encode_set(sets[i], form if set_form is None else set_form, rotate, [(S.dyn['unknown'], b'x' * pos), (0x7f01, b'')] if dark else ())
    return out


def build(S, kag=1, status=4, form=0, fill_after_pack=False, index=0, op=OPATOM, containers=1, body=None, footer=None, essence=b'', **how):
    """the file; body and footer: metadata (bytes) repeated in those partitions"""
    meta = metadata(S, form=form, **how)
    head = len(partition(2, status, kag, op=op, containers=containers, form=form))
    gap = pad(head, kag)
    if fill_after_pack and not gap:
        gap = klv(FILL, bytes(100), form)
    start = head + len(gap)
    meta += pad(start + len(meta), kag)
    idx = b''
    if index:
        idx = klv(INDEX, (u16(0x3c0a) + u16(16) + bytes(range(16)) + u16(0x3f0a) + u16(index) + bytes(index)), form)
        idx += pad(start + len(meta) + len(idx), kag)
    out = partition(2, status, kag, hbc=len(meta), ibc=len(idx), op=op, containers=containers, form=form) + gap + meta + idx
    for kind, m in ((3, body), (4, footer)):
        p = partition(kind, 4 if kind == 4 else 1, kag, this=len(out), hbc=len(m or b''), op=op, containers=containers, form=form, sid=kind == 3)
        out += p
        out += pad(len(out), kag)
        if m:
            out += m
            out += pad(len(out), kag)
        if kind == 3:
            out += klv(ESSENCE, essence, form)
            out += pad(len(out), kag)
    return out + klv(RIP, struct.pack('>IQI', 1, 0, 28), 4)
