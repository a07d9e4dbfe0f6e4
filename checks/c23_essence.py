"""C23: imported essence is stored and exported byte for byte with a true description.

Wave files are built chunk by chunk (every header layout of a set x channels x
sample width x rate x length at and around every boundary), imported through either
kind of mob, on- and offline, with and without tape, at several edit rates; DnxHD /
DNxHR streams and raw video likewise.  Stored bytes, descriptor, slot, clip chain
are compared with what was put into the source, at once and after save and
reopen, and the essence is exported again and parsed independently."""
import io, itertools, os, struct
from fractions import Fraction
import aaf2
from aaf2.mobid import MobID
from aaf2.rational import AAFRational
from lib import aafrig, util
from lib.mc import Space, Violation, words, exc_site, tb_tail
from checks import c24_dnx_frames as dnx

LEVEL = 'model_checking'
ASSUMPTIONS = ['the wave header agrees with the length of its data (a source cut short is not judged)',
               'a slot length that is no whole number of edit units may be rounded either way']


def chunk(tag, data):
    return tag + struct.pack('<I', len(data)) + data + (b'\0' if len(data) & 1 else b'')


def fmt(ch, width, rate, kind='pcm', bits=None):
    bits = bits or width * 8 - (4 if kind == 'narrow' else 0)
    base = struct.pack('<HHIIHH', {'pcm': 1, 'pcm18': 1, 'narrow': 1, 'ext': 0xFFFE, 'float': 3, 'mulaw': 7}[kind], ch, rate, rate * ch * width, ch * width, bits)
    if kind == 'pcm18':
        base += struct.pack('<H', 0)
    if kind == 'ext':
        base += struct.pack('<HHI', 22, bits, (1 << ch) - 1) + b'\x01\x00\x00\x00\x00\x00\x10\x00\x80\x00\x00\xaa\x00\x38\x9b\x71'
    return chunk(b'fmt ', base)


LAYOUTS = {
    'plain': ('pcm', [], [], []),
    'ext': ('ext', [], [], []),
    'pcm18': ('pcm18', [], [], []),
    # samples that do not fill their bytes
    'narrow': ('narrow', [], [], []),
    'bext': ('pcm', [(b'bext', 602)], [], []),
    'odd before': ('pcm', [(b'junk', 13)], [], []),
    'between': ('pcm', [], [(b'fact', 4), (b'odd ', 7)], []),
    'after': ('pcm', [], [], [(b'LIST', 26), (b'odd ', 3)]),
    'everywhere': ('ext', [(b'JUNK', 28), (b'x   ', 1)], [(b'fact', 4), (b'LIST', 0)], [(b'iXML', 999)]),
    'empty before': ('pcm', [(b'zero', 0)], [], []),
    'large before': ('pcm', [(b'junk', 70001)], [], []),
}


def wav(ch, width, rate, frames, layout, salt=0):
    """(bytes of a wave file, its samples)"""
    kind, before, between, after = LAYOUTS[layout]
    data = util.pattern(salt, frames * ch * width)
    body = b'WAVE'
    for tag, n in before:
        body += chunk(tag, bytes(util.pattern(n, n)))
    body += fmt(ch, width, rate, kind)
    for tag, n in between:
        body += chunk(tag, bytes(util.pattern(n, n)))
    body += chunk(b'data', bytes(data))
    for tag, n in after:
        body += chunk(tag, bytes(util.pattern(n, n)))
    return b'RIFF' + struct.pack('<I', len(body)) + body, bytes(data)


def parse_wav(b):
    """independent reader: (format tag, channels, rate, bytes/s, block, bits, samples)"""
    if b[:4] != b'RIFF' or b[8:12] != b'WAVE':
        raise Violation('exported file is no wave file', 'export')
    if struct.unpack('<I', b[4:8])[0] + 8 != len(b) + (len(b) & 1 and 0):
        raise Violation('exported file says it has %d bytes, has %d' % (struct.unpack('<I', b[4:8])[0] + 8, len(b)), 'export')
    pos, f, d = 12, None, None
    while pos + 8 <= len(b):
        tag, n = b[pos:pos + 4], struct.unpack('<I', b[pos + 4:pos + 8])[0]
        x = b[pos + 8:pos + 8 + n]
        if tag == b'fmt ':
            f = struct.unpack('<HHIIHH', x[:16])
        if tag == b'data':
            d = x
        pos += 8 + n + (n & 1)
    return f + (d,)


def mobid(i):
    return MobID(int=0x060a2b340101010501010f2013000000 << 128 | 0xc230000 | i)


def fresh():
    p = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
    return p, aaf2.open(p, 'r+')


def near(got, exact):
    return got == exact if exact.denominator == 1 else abs(got - exact) < 1


def rate_of(x):
    """the exact rate denoted by an edit rate argument"""
    return Fraction(x) if not isinstance(x, str) else Fraction(*[int(y) for y in x.split('/')]) if '/' in x else Fraction(x)


def same_rate(v, x):
    return Fraction(v.numerator, v.denominator) == rate_of(x)


class Job(object):
    """one import; check() looks at what it made"""
    def __init__(self, i, how, edit_rate, tape, offline, length):
        self.i, self.how, self.edit_rate, self.tape, self.offline, self.length = i, how, edit_rate, tape, offline, length

    def start(self, f):
        m = (f.create.MasterMob if self.how == 'master' else f.create.SourceMob)('m%d' % self.i)
        m.mob_id = mobid(self.i)
        f.content.mobs.append(m)
        t = None
        if self.tape:
            tape = f.create.SourceMob('t%d' % self.i)
            tape.mob_id = mobid(50000 + self.i)
            tape.create_tape_slots('tape %d' % self.i, 25, 25, media_kind=self.media)
            f.content.mobs.append(tape)
            t = tape.create_source_clip(1, 7, media_kind=self.media)
        self.run(m, t)
        if self.how == 'master':
            self.src = m.slots[0].segment.mob_id

    def bad(self, what):
        raise Violation('%s: %s' % (self.describe(), what), 'import')

    def check(self, f, when):
        m = f.content.mobs[mobid(self.i)]
        if len(m.slots) != 1:
            self.bad('%d slots%s' % (len(m.slots), when))
        src = m
        if self.how == 'master':
            slot = m.slots[0]
            c = slot.segment
            if c.mob is None or c.slot is None or type(c).__name__ != 'SourceClip' or c.start != 0:
                self.bad('master clip is %s, leads to %s %s from %s%s' % (type(c).__name__, c.mob, c.slot, c.start, when))
            src = c.mob
            if len(src.slots) != 1 or c.slot is not src.slots[0]:
                self.bad('source mob has %d slots%s' % (len(src.slots), when))
            if c.length != src.slots[0].segment.length or c.media_kind.lower() != self.media:
                self.bad('master clip has length %s of %s, the source %s%s' % (c.length, c.media_kind, src.slots[0].segment.length, when))
            if not same_rate(slot.edit_rate, self.rate):
                self.bad('master slot has edit rate %s%s' % (slot.edit_rate, when))
        slot = src.slots[0]
        if slot.slot_id != 1 or slot.media_kind.lower() != self.media or not same_rate(slot.edit_rate, self.rate):
            self.bad('slot %s %s at %s%s' % (slot.slot_id, slot.media_kind, slot.edit_rate, when))
        seg = slot.segment
        exact = Fraction(self.length) if self.length else self.exact
        if not near(seg.length, exact):
            self.bad('length %s, should be %s%s' % (seg.length, exact, when))
        if self.tape:
            if seg.mob_id != mobid(50000 + self.i) or seg.start != 7 or seg.slot_id != 1 or seg.slot is None:
                self.bad('does not lead to the tape%s' % when)
        elif seg.mob is not None:
            self.bad('leads to %s%s' % (seg.mob, when))
        d = src.descriptor
        for k, v in self.descr():
            got = d[k].value
            if k in ('SampleRate', 'AudioSamplingRate', 'ImageAspectRatio'):
                ok = same_rate(got, v)
            elif k == 'PixelLayout':
                ok = [x for x in got if x['Code'] != 'CompNull'] == v
            else:
                ok = got == v
            if not ok:
                self.bad('descriptor has %s %s, should be %s%s' % (k, got, v, when))
        if d.length != d['Length'].value:
            self.bad('descriptor length is %s / %s%s' % (d.length, d['Length'].value, when))
        e = src.essence
        if self.offline:
            if e is not None:
                self.bad('offline import has essence%s' % when)
        else:
            if e is None or e.mob is not src or e.mob_id != src.mob_id:
                self.bad('essence is not linked to its mob%s' % when)
            s = e.open('r')
            b = bytes(s.read())
            if b != self.stored:
                n = next((j for j, (x, y) in enumerate(zip(b, self.stored)) if x != y), min(len(b), len(self.stored)))
                self.bad('%d bytes stored, should be %d; first difference at %d%s' % (len(b), len(self.stored), n, when))
        self.more(src, when)

    def more(self, src, when):
        pass


class Audio(Job):
    media = 'sound'

    def __init__(self, i, ch, width, rate, frames, layout='plain', edit_rate=None, how='source', tape=False, offline=False, length=None):
        super(Audio, self).__init__(i, how, edit_rate, tape, offline, length)
        self.ch, self.width, self.sr, self.frames, self.layout = ch, width, rate, frames, layout
        self.rate = edit_rate or rate
        self.exact = Fraction(frames) * rate_of(self.rate) / rate

    def describe(self):
        return '%s, %d channels of %d bytes at %d, %d frames, edit rate %s, %s%s%s%s' % (self.layout, self.ch, self.width, self.sr, self.frames, self.edit_rate, self.how, ', tape' if self.tape else '', ', offline' if self.offline else '', ', length %s' % self.length if self.length else '')

    def run(self, m, tape):
        p = util.spath('c23-%d.wav' % os.getpid())
        b, self.stored = wav(self.ch, self.width, self.sr, self.frames, self.layout, self.i)
        with open(p, 'wb') as g:
            g.write(b)
        m.import_audio_essence(p, self.edit_rate, tape, self.length, self.offline)

    def descr(self):
        return [('Channels', self.ch), ('BlockAlign', self.ch * self.width), ('SampleRate', self.sr), ('AverageBPS', self.sr * self.ch * self.width),
                ('QuantizationBits', 8 * self.width), ('AudioSamplingRate', self.sr), ('Length', self.frames)]

    def more(self, src, when):
        if self.offline:
            return
        p = util.spath('c23-%d-out.wav' % os.getpid())
        src.export_audio(p)
        with open(p, 'rb') as g:
            got = parse_wav(g.read())
        want = (1, self.ch, self.sr, self.sr * self.ch * self.width, self.ch * self.width, 8 * self.width, self.stored)
        if got != want:
            self.bad('exports as %s, %d bytes; should be %s, %d bytes%s' % (got[:-1], len(got[-1] or b''), want[:-1], len(self.stored), when))


class Sparse(Audio):
    """offline import of a long file whose samples are a hole"""
    def run(self, m, tape):
        p = util.spath('c23-%d.wav' % os.getpid())
        n = self.frames * self.ch * self.width
        head = b'RIFF' + struct.pack('<I', 36 + n) + b'WAVE' + fmt(self.ch, self.width, self.sr) + b'data' + struct.pack('<I', n)
        with open(p, 'wb') as g:
            g.write(head)
            g.truncate(len(head) + n)
        m.import_audio_essence(p, self.edit_rate, tape, self.length, True)
        os.unlink(p)


class Dnx(Job):
    media = 'picture'

    def __init__(self, i, kind, n, edit_rate=25, how='source', tape=False, offline=False, length=None, cut=0):
        super(Dnx, self).__init__(i, how, edit_rate, tape, offline, length)
        self.kind, self.n, self.cut = kind, n, cut
        self.rate = edit_rate
        self.exact = Fraction(n)

    def describe(self):
        return 'dnx %s, %d frames%s, edit rate %s, %s%s%s%s' % (dnx.KINDS[self.kind], self.n, ' and %d bytes' % self.cut if self.cut else '', self.edit_rate, self.how, ', tape' if self.tape else '', ', offline' if self.offline else '', ', length %s' % self.length if self.length else '')

    def run(self, m, tape):
        p = util.spath('c23-%d.dnx' % os.getpid())
        self.stored = b''.join(dnx.frame(self.kind, j) for j in range(self.n))
        with open(p, 'wb') as g:
            g.write(self.stored + dnx.frame(self.kind, 9)[:self.cut])
        m.import_dnxhd_essence(p, self.edit_rate, tape, self.length, self.offline)

    def descr(self):
        cid, w, h, depth, il, off = dnx.KINDS[self.kind]
        return [('SampleRate', self.edit_rate), ('StoredWidth', w), ('StoredHeight', h), ('ComponentWidth', depth), ('FrameLayout', 'SeparateFields' if il else 'FullFrame'),
                ('FrameSampleSize', dnx.frame_size(cid, w, h)), ('ImageAspectRatio', Fraction(w, h)), ('Compression', COMPRESSION[cid]), ('HorizontalSubsampling', 2), ('Length', self.n)]


from aaf2.auid import AUID
COMPRESSION = {c: AUID('04010202-71%02x-0000-060e-2b340401010%s' % (x, 'a' if c < 1270 else 'd')) for c, x in
               ((1235, 1), (1237, 3), (1238, 4), (1241, 7), (1242, 8), (1243, 9), (1244, 10), (1250, 16), (1251, 17), (1252, 18), (1253, 19), (1256, 22), (1258, 24), (1259, 25), (1260, 26),
                (1270, 36), (1271, 37), (1272, 38), (1273, 39), (1274, 40))}
PIXELS = {'rgb': [('CompRed', 8), ('CompGreen', 8), ('CompBlue', 8)], 'rgba': [('CompRed', 8), ('CompGreen', 8), ('CompBlue', 8), ('CompAlpha', 8)], 'rgb10': [('CompRed', 10), ('CompGreen', 10), ('CompBlue', 10)], 'mono': [('CompRed', 8)], 'bit': [('CompRed', 1)]}


class Raw(Job):
    media = 'picture'

    def __init__(self, i, pixels, w, h, n, edit_rate=25, tape=False, cut=0):
        super(Raw, self).__init__(i, 'source', edit_rate, tape, False, None)
        self.pixels, self.w, self.h, self.n, self.cut = pixels, w, h, n, cut
        self.rate = edit_rate
        self.exact = Fraction(n)
        bits = sum(x[1] for x in PIXELS[pixels]) * w * h
        self.raw = -(-bits // 8)
        self.size = -(-self.raw // 8192) * 8192

    def describe(self):
        return 'raw %s %dx%d, %d frames of %d bytes%s, edit rate %s%s' % (self.pixels, self.w, self.h, self.n, self.raw, ' and %d bytes' % self.cut if self.cut else '', self.edit_rate, ', tape' if self.tape else '')

    def run(self, m, tape):
        p = util.spath('c23-%d.raw' % os.getpid())
        fr = [bytes(util.pattern(j + 1, self.raw)) for j in range(self.n + 1)]
        self.stored = b''.join(x + bytes(self.size - self.raw) for x in fr[:self.n])
        with open(p, 'wb') as g:
            g.write(b''.join(fr[:self.n]) + fr[-1][:self.cut])
        m.import_rawvideo_essence(p, self.edit_rate, self.w, self.h, [{'Code': a, 'Size': b} for a, b in PIXELS[self.pixels]], tape)

    def descr(self):
        return [('SampleRate', self.edit_rate), ('StoredWidth', self.w), ('StoredHeight', self.h), ('FrameLayout', 'FullFrame'), ('ImageAspectRatio', Fraction(self.w, self.h)), ('ImageAlignmentFactor', 8192),
                ('FrameSampleSize', self.size), ('ImageSize', self.n * self.size), ('Length', self.n), ('PixelLayout', [{'Code': a, 'Size': b} for a, b in PIXELS[self.pixels]])]


KIND = {'Audio': Audio, 'Sparse': Sparse, 'Dnx': Dnx, 'Raw': Raw}


def run_jobs(case, t):
    """case: kind, list of argument lists: all in one file"""
    kind, args = case
    p, f = fresh()
    try:
        try:
            jobs = []
            for i, a in enumerate(args):
                j = KIND[kind](i, *a)
                jobs.append(j)
                t.step()
                j.start(f)
                j.check(f, '')
            f.close()
            with aaf2.open(p, 'r') as g:
                for j in jobs:
                    j.check(g, ' after reopening')
                    t.state((kind,) + tuple(map(str, args[j.i])))
                want = {mobid(j.i) for j in jobs} | {mobid(50000 + j.i) for j in jobs if j.tape} | {j.src for j in jobs if j.how == 'master'}
                got = {m.mob_id for m in g.content.mobs}
                if got != want:
                    raise Violation('%s: mobs %s more, %s missing' % (args[:3], len(got - want), len(want - got)), 'mobs')
                n = len(list(g.content.essencedata))
                if n != sum(not j.offline for j in jobs):
                    raise Violation('%s: %d essence streams' % (args[:3], n), 'mobs')
        except Exception as e:
            if len(args) > 1:
                for a in args:
                    run_jobs([kind, [a]], t)
            if isinstance(e, Violation):
                e.case = [kind, args]
                raise
            raise Violation('%s %s: %s: %s [%s]' % (kind, args[-1] if len(args) == 1 else args[:3], type(e).__name__, e, tb_tail(e)), 'exc:%s@%s' % (type(e).__name__, exc_site(e)), case=[kind, args])
    finally:
        f.f.close()
        os.unlink(p)


def batches(kind, gen, n):
    def cases():
        out = []
        for a in gen():
            out.append(list(a))
            if len(out) == n:
                yield [kind, out]
                out = []
        if out:
            yield [kind, out]
    return cases


RATES = [None, 1, 24, 25, 30, 50, 60, '24000/1001', '30000/1001', '60000/1001', '15/2', 48000]


def layouts(full):
    for layout in sorted(LAYOUTS):
        for ch in ((1, 2, 3, 8) if full else (1, 3)):
            for width in (2, 3):
                for frames in ((0, 1, 2, 3, 48, 49, 97) if full else (0, 1, 49)):
                    yield ch, width, 48, frames, layout
    # blocks up to the largest a descriptor can tell
    for ch, width in ((16, 3), (64, 3), (255, 2), (256, 3), (1366, 3), (2049, 2), (32767, 2), (21845, 3)):
        for frames in (0, 1, 3):
            yield ch, width, 48, frames, 'plain'


def lengths(full):
    for ch, width in ((1, 2), (1, 3), (2, 3)) if full else ((1, 2), (1, 3)):
        for frames in range(0, 46 if full else 32):
            yield ch, width, 10, frames
        block = ch * width
        for size in (64, 512, 4096, 8192, 3 * 4096):
            for d in (-2, -1, 0, 1, 2) if full else (-1, 0, 1):
                yield ch, width, 997, size // block + d
                yield ch, width, size // block, size // block + d


def options():
    for rate in RATES:
        for how in ('source', 'master'):
            for tape in (False, True):
                for offline in (False, True):
                    for length in (None, 5):
                        yield 1, 2, 480, 96, 'plain', rate, how, tape, offline, length


def long_ones(full):
    for sr in (48000, 44100, 32000, 96000) if full else (48000, 44100):
        for rate in RATES[1:-1]:
            r = rate_of(rate)
            # every length that is a whole number of edit units, and its neighbours
            per = Fraction(sr) / r
            ks = list(range(1, 60 if full else 25)) + [24 * 60, 24 * 3600 - 1, 86400, 90000, 107892]
            for k in ks:
                n = per * k
                for d in ((0,) if n.denominator == 1 else (0, 1)):
                    m = int(n) + d
                    if m * 2 < 1 << 32:
                        yield 1, 2, sr, m, 'plain', rate, 'source', False, True


def dnxs(full):
    for kind in 'lqhxiy' if full else 'lxi':
        for n in range(1, 6 if full else 4):
            yield kind, n
    for rate in (24, 25, '30000/1001', '24000/1001'):
        for how in ('source', 'master'):
            for tape in (False, True):
                for offline in (False, True):
                    for length in (None, 2):
                        yield 'l', 3, rate, how, tape, offline, length
    for cut in (1, 639, 640, 641, 8191):
        for n in (1, 2):
            yield 'l', n, 25, 'source', False, False, None, cut


def raws(full):
    for px in sorted(PIXELS):
        for w, h in ((64, 64), (64, 43), (128, 64), (1, 1), (3, 5), (64, 128), (64, 129), (53, 51), (320, 240)) if full else ((64, 128), (1, 1), (53, 51), (64, 129)):
            for n in (0, 1, 2, 3) if full else (0, 1, 3):
                yield px, w, h, n
    for px, w, h in (('rgb', 64, 64), ('mono', 128, 64), ('rgb10', 3, 5)):
        for n in (0, 1, 2):
            for cut in (1, 3):
                yield px, w, h, n, 25, False, cut
    for rate in (24, '30000/1001'):
        for tape in (False, True):
            yield 'rgb', 64, 64, 2, rate, tape


# ---------------------------------------------------------------- sources that cannot be imported

def refused():
    ok, d = wav(1, 2, 48, 20, 'plain')
    out = {
        'width 1': b'RIFF' + struct.pack('<I', 60) + b'WAVE' + fmt(1, 1, 48) + chunk(b'data', bytes(24)),
        'width 4': b'RIFF' + struct.pack('<I', 60) + b'WAVE' + fmt(1, 4, 48) + chunk(b'data', bytes(24)),
        'float': b'RIFF' + struct.pack('<I', 60) + b'WAVE' + fmt(1, 4, 48, 'float') + chunk(b'data', bytes(24)),
        'mulaw': b'RIFF' + struct.pack('<I', 60) + b'WAVE' + fmt(1, 1, 48, 'mulaw') + chunk(b'data', bytes(24)),
        'no fmt': b'RIFF' + struct.pack('<I', 36) + b'WAVE' + chunk(b'data', bytes(24)),
        'no data': b'RIFF' + struct.pack('<I', 28) + b'WAVE' + fmt(1, 2, 48),
        'not wave': b'RIFF' + struct.pack('<I', 28) + b'WAVX' + fmt(1, 2, 48) + chunk(b'data', bytes(24)),
        'not riff': b'RIFX' + ok[4:],
        'empty': b'',
        'cut header': ok[:20],
    }
    dn = dnx.frame('l', 0)
    return ([('wav ' + k, 'wav', v) for k, v in sorted(out.items())] +
            [('dnx empty', 'dnx', b''), ('dnx zeros', 'dnx', bytes(9000)), ('dnx short', 'dnx', dn[:600]), ('dnx one cut frame', 'dnx', dn[:5000]), ('dnx 444', 'dnx', dnx.header(1270, 256, 120, 12, False, 0x280, True) + bytes(9000)),
             ('dnx other id', 'dnx', dnx.header(1299, 256, 120) + bytes(9000)), ('missing wav', 'wav', None), ('missing dnx', 'dnx', None)])


def run_refused(case, t):
    """case: index of the source, kind of mob, offline"""
    what, kind, data = refused()[case[0]]
    p, f = fresh()
    try:
        q = util.spath('c23-%d.bad' % os.getpid())
        if data is None:
            if os.path.exists(q):
                os.unlink(q)
        else:
            with open(q, 'wb') as g:
                g.write(data)
        m = (f.create.MasterMob if case[1] == 'master' else f.create.SourceMob)('m')
        m.mob_id = mobid(1)
        if case[1] != 'master':
            m.descriptor = f.create.TapeDescriptor()
        f.content.mobs.append(m)
        t.step()
        before = aafrig.canon_file(f, skip=(aafrig.METADICT,))
        try:
            if kind == 'wav':
                m.import_audio_essence(q, offline=case[2])
            else:
                m.import_dnxhd_essence(q, 25, offline=case[2])
        except (UnboundLocalError, NameError, AttributeError) as e:
            raise Violation('%s into a %s mob: refused by accident: %s: %s' % (what, case[1], type(e).__name__, e), 'accident')
        except Exception:
            pass
        else:
            raise Violation('%s is imported' % what, 'accepted')
        after = aafrig.canon_file(f, skip=(aafrig.METADICT,))
        if after != before:
            from lib import aafref
            raise Violation('%s into a %s mob is refused but changes the file: %s' % (what, case[1], '; '.join(aafref.diff(before, after))), 'changed')
        f.close()
        with aaf2.open(p, 'r') as g:
            if [x.mob_id for x in g.content.mobs] != [mobid(1)]:
                raise Violation('%s: mobs after reopening: %s' % (what, list(g.content.mobs)), 'changed')
        t.state(tuple(case))
    finally:
        f.f.close()
        os.unlink(p)


def refused_cases():
    for i in range(len(refused())):
        for how in ('source', 'master'):
            for off in (False, True):
                yield [i, how, off]


def spaces(tier):
    full = tier != 'quick'
    lim = 120 if not full else 900
    return [
        Space('layouts', batches('Audio', lambda: layouts(full), 30), run_jobs, 'header layout x channels x sample width x length; blocks up to 65535 bytes', cpu_limit=lim),
        Space('lengths', batches('Audio', lambda: lengths(full), 30), run_jobs, 'every length around read, sector and stream boundaries', cpu_limit=lim),
        Space('options', batches('Audio', options, 24), run_jobs, 'edit rate x kind of mob x tape x offline x explicit length', cpu_limit=lim),
        Space('rates', batches('Sparse', lambda: long_ones(full), 60), run_jobs, 'sample rate x edit rate x number of edit units', cpu_limit=lim),
        Space('dnx', batches('Dnx', lambda: dnxs(full), 12), run_jobs, 'DNx kinds x frames x edit rate x mob x tape x offline x length x cut', cpu_limit=lim),
        Space('raw', batches('Raw', lambda: raws(full), 15), run_jobs, 'raw video: pixel layout x size x frames x cut', cpu_limit=lim),
        Space('refused', refused_cases, run_refused, 'sources that cannot be imported x kind of mob', cpu_limit=lim),
    ]
