"""C26: linked external media is described by its own header.

Wave and AIFF files are built chunk by chunk: every word of chunks (empty, odd, even,
large) before the format chunk, every form of it; movies are described by probe metadata:
every word of streams up to a length, every pixel and sample format, profile and rate of
a set.  Each is linked; the three mobs, their slots, clips, rates and lengths, and the
descriptors are compared with the file and the metadata, at once and after save and
reopen.  What cannot be linked must be refused and leave the file as it was."""
import itertools, os, struct
from fractions import Fraction
from urllib.parse import unquote
import aaf2
from aaf2.auid import AUID
from lib import aafrig, aafref, util
from lib.mc import Space, Violation, words, exc_site, tb_tail
from checks import c23_essence as c23

LEVEL = 'model_checking'
ASSUMPTIONS = ['the metadata is what ffprobe gives for the file (every value present)', 'paths are absolute']

chunk = c23.chunk
CH = {'z': (b'zero', 0), 'o': (b'odd ', 13), '1': (b'one ', 1), 'b': (b'bext', 602), 'l': (b'JUNK', 70001), 'f': (b'fact', 4), 'n': (b'LIST', 26),
      # named much like the ones looked for
      'x': (b'xfmt', 16), 'y': (b'fact', 16), 'X': (b'FMT ', 16), 'c': (b'comm', 18), 'C': (b'xCOM', 18)}


def be_chunk(tag, data):
    return tag + struct.pack('>I', len(data)) + data + (b'\0' if len(data) & 1 else b'')


def fmt_chunk(kind, ch, width, rate):
    if kind == 'long':          # a format chunk of odd size
        d = struct.pack('<HHIIHH', 1, ch, rate, rate * ch * width, ch * width, width * 8) + b'\1\0\7'
        return chunk(b'fmt ', d)
    return c23.fmt(ch, width, rate, kind)


def wave_file(before, kind, ch, width, rate, frames, after):
    """(file, what the summary is)"""
    body = b'WAVE' + b''.join(chunk(CH[c][0], bytes(util.pattern(1, CH[c][1]))) for c in before)
    f = fmt_chunk(kind, ch, width, rate)
    body += f + b''.join(chunk(CH[c][0], bytes(util.pattern(2, CH[c][1]))) for c in after) + chunk(b'data', bytes(util.pattern(3, frames * ch * width)))
    n = struct.unpack('<I', f[4:8])[0]
    head = b'RIFF' + struct.pack('<I', len(body))
    return head + body, head + b'WAVE' + f[:8 + n]


def aiff_file(before, form, name, ch, width, rate, frames, after):
    e = rate.bit_length() - 1
    ext = struct.pack('>HQ', 16383 + e, rate << (63 - e))
    comm = struct.pack('>hIh', ch, frames, width * 8) + ext
    if form == 'AIFC':
        comm += b'NONE' + bytes([len(name)]) + name + (b'' if len(name) & 1 else b'\0')
    parts = b''.join(be_chunk(CH[c][0] if c != 's' else b'SSND', bytes(util.pattern(1, CH[c][1] if c != 's' else 8 + frames * ch * width))) for c in before)
    c = be_chunk(b'COMM', comm)
    body = form.encode() + parts + c + b''.join(be_chunk(CH[x][0], bytes(util.pattern(2, CH[x][1]))) for x in after)
    head = b'FORM' + struct.pack('>I', len(body))
    return head + body, head + form.encode() + c[:8 + len(comm)]


SAMPLE = {'u8': (8, 1), 's16': (16, 2), 's32': (32, 4), 'flt': (32, 4), 'dbl': (64, 8), 's64': (64, 8), 'u8p': (8, 1), 's16p': (16, 2), 's32p': (32, 4), 'fltp': (32, 4), 'dblp': (64, 8), 's64p': (64, 8)}
PROFILES = {'Baseline': 'AVC 1001', 'Constrained Baseline': 'AVC 1101', 'Main': 'AVC 2001', 'Extended': 'AVC 3001', 'High': 'AVC 4001', 'High 10': 'AVC 5001', 'High 4:2:2': 'AVC 6001',
            'High 10 Intra': 'INT 2001', 'High 4:2:2 Intra': 'INT 3001', 'High 4:4:4': None, 'High 4:4:4 Predictive': None, 'High 4:4:4 Intra': None, 'CAVLC 4:4:4': None, 'Other': None, None: None}
PICTURE = AUID('04010202-0000-0000-060e-2b3404010101')
MJPEG = AUID('0e040201-0205-0100-060e-2b3404010101')


def compression(codec, profile):
    if codec == 'mjpeg':
        return MJPEG
    x = PROFILES[profile] if codec == 'h264' else None
    if x is None:
        return PICTURE
    return AUID('04010202-%s-%s-060e-2b340401010%s' % ('0131' if x[:3] == 'AVC' else '0132', x[4:], 'd' if x[:3] == 'AVC' else 'a'))


def video_stream(rate='25/1', frames=100, pix='yuv420p', w=1920, h=1080, codec='h264', profile='High'):
    d = {'codec_type': 'video', 'codec_name': codec, 'avg_frame_rate': rate, 'r_frame_rate': '90000/1', 'nb_frames': str(frames), 'duration_ts': frames * 512, 'pix_fmt': pix, 'width': w, 'height': h,
         'coded_width': w + 8, 'coded_height': h + 8, 'bit_rate': '5000000', 'duration': '4.0'}
    if profile is not None:
        d['profile'] = profile
    return d


def audio_stream(rate=48000, length=192000, ch=2, sf='s16', bits=1536000, codec='pcm_s16le'):
    return {'codec_type': 'audio', 'codec_name': codec, 'sample_rate': str(rate), 'duration_ts': length, 'nb_frames': '187', 'channels': ch, 'sample_fmt': sf, 'bit_rate': str(bits), 'avg_frame_rate': '0/0', 'duration': '4.0'}


STREAMS = {
    'v': lambda: video_stream(), 'w': lambda: video_stream('30000/1001', 7, 'yuv422p10le', 1280, 720, 'prores', None), 'a': lambda: audio_stream(), 'm': lambda: audio_stream(44100, 5, 1, 'fltp', 128001, 'aac'),
    's': lambda: audio_stream(96000, 1 << 33, 6, 's32', 18432000), 'd': lambda: {'codec_type': 'data', 'codec_name': 'tmcd', 'avg_frame_rate': '25/1'}, 't': lambda: {'codec_type': 'subtitle', 'codec_name': 'mov_text'},
}
PIX = {}
for _f in ('yuv', 'yuvj', 'yuva'):
    for _s, _hv in (('420', (2, 2)), ('422', (2, 1)), ('444', (1, 1)), ('440', (1, 2)), ('411', (4, 1)), ('410', (4, 4))):
        for _d in ('', '9', '10', '12', '14', '16'):
            for _e in ('',) if not _d else ('le', 'be'):
                PIX['%s%sp%s%s' % (_f, _s, _d, _e)] = (int(_d or 8),) + _hv


def probe(path, kind, streams):
    n, l = {'wav': ('wav', 'WAV / WAVE (Waveform Audio)'), 'aiff': ('aiff', 'Audio IFF'), 'mov': ('mov,mp4,m4a,3gp,3g2,mj2', 'QuickTime / MOV')}[kind]
    return {'format': {'filename': path, 'format_name': n, 'format_long_name': l}, 'streams': streams}


class Link(object):
    def __init__(self, name, kind, data, summary, streams):
        self.name, self.kind, self.data, self.summary, self.streams = name, kind, data, summary, streams
        self.dir = util.spath('c26-%d' % os.getpid())
        self.path = os.path.join(self.dir, name)

    def start(self, f):
        os.makedirs(self.dir, exist_ok=True)
        if self.data is not None:
            with open(self.path, 'wb') as g:
                g.write(self.data)
        try:
            md = probe(self.path, self.kind, self.streams)
            if self.kind == 'wav' and len(self.name) & 1:
                mobs = f.content.link_external_wav(md)
            else:
                mobs = f.content.create_ama_link(self.path, md)
        finally:
            if self.data is not None:
                os.unlink(self.path)
        if mobs is None:
            raise Violation('%s: nothing is linked' % self.name, 'mobs')
        self.ids = [m.mob_id for m in mobs]

    def bad(self, what, sig='value'):
        raise Violation('%s %s: %s' % (self.kind, self.name, what), sig)

    def check(self, f, when=''):
        mobs = [f.content.mobs.get(i) for i in self.ids]
        if [type(m).__name__ for m in mobs] != ['MasterMob', 'SourceMob', 'SourceMob']:
            self.bad('mobs are %s%s' % (mobs, when), 'mobs')
        stem = os.path.splitext(self.name)[0]
        for m, x in zip(mobs, (stem, stem + ' <SOURCE MOB>', stem + ' <TAPE MOB>')):
            if m.name != x:
                self.bad('mob is named %r, should be %r%s' % (m.name, x, when))
        want = []
        for s in self.streams:
            if s['codec_type'] == 'video':
                want.append(('Picture', Fraction(s['avg_frame_rate']), int(s['nb_frames'])))
        for s in self.streams:
            if s['codec_type'] == 'audio':
                want += [('Sound', Fraction(s['sample_rate']), s['duration_ts'])] * s['channels']
        for level, m in enumerate(mobs):
            slots = list(m.slots)
            if len(slots) != len(want):
                self.bad('%d slots in %s, should be %d%s' % (len(slots), m.name, len(want), when), 'slots')
            sound = 0
            for i, (s, (kind, rate, length)) in enumerate(zip(slots, want)):
                sound += kind == 'Sound'
                seg = s.segment
                comps = list(seg.components)
                c = comps[0]
                got = (s.slot_id, s.media_kind, Fraction(s.edit_rate.numerator, s.edit_rate.denominator), type(seg).__name__, seg.length, len(comps), type(c).__name__, c.media_kind, c.length, c.start)
                exp = (i + 1, kind, rate, 'Sequence', length, 1, 'SourceClip', kind, length, 0)
                if got != exp:
                    self.bad('slot of %s is %s, should be %s%s' % (m.name, got, exp, when), 'slot')
                if level < 2:
                    if c.mob is not mobs[level + 1] or c.slot is not mobs[level + 1].slots[i]:
                        self.bad('slot %d of %s leads to %s, %s%s' % (i, m.name, c.mob, c.slot, when), 'chain')
                    if kind == 'Sound' and s['PhysicalTrackNumber'].value != sound:
                        self.bad('sound slot %d is track %s%s' % (sound, s['PhysicalTrackNumber'].value, when), 'slot')
                elif c.mob is not None:
                    self.bad('tape slot leads to %s%s' % (c.mob, when), 'chain')
        if mobs[2].descriptor.classdef.class_name != 'ImportDescriptor':
            self.bad('tape descriptor is %s%s' % (mobs[2].descriptor, when))
        pics = [s for s in self.streams if s['codec_type'] == 'video']
        if pics and dict(mobs[1].comments.items()) != {'Video': pics[0]['codec_name']}:
            self.bad('comments are %s%s' % (dict(mobs[1].comments.items()), when))
        d = mobs[1].descriptor
        if self.kind in ('wav', 'aiff'):
            s = self.streams[0]
            self.same(d, {'class': 'WAVEDescriptor' if self.kind == 'wav' else 'AIFCDescriptor', 'Summary': self.summary, 'SampleRate': Fraction(s['sample_rate']), 'Length': s['duration_ts']}, when)
        else:
            av = [s for s in self.streams if s['codec_type'] in ('video', 'audio')]
            one = [self.movie(s) for s in av]
            if len(one) == 1:
                self.same(d, one[0], when)
            else:
                first = (pics or av)[0]
                self.same(d, {'class': 'MultipleDescriptor', 'SampleRate': Fraction(first.get('sample_rate') or first['avg_frame_rate']) if first['codec_type'] == 'audio' else Fraction(first['avg_frame_rate']),
                              'Length': first['duration_ts'] if first['codec_type'] == 'audio' else int(first['nb_frames']),
                              'MediaContainerGUID': AUID('b22697a2-3442-44e8-bb8f-7a1cd290ebf1')}, when)
                files = list(d['FileDescriptors'].value)
                if len(files) != len(one):
                    self.bad('%d descriptors, should be %d%s' % (len(files), len(one), when))
                for x, y in zip(files, one):
                    self.same(x, y, when)

    def movie(self, s):
        if s['codec_type'] == 'audio':
            bits, size = SAMPLE[s['sample_fmt']]
            r = Fraction(s['sample_rate'])
            return {'class': 'PCMDescriptor', 'SampleRate': r, 'AudioSamplingRate': r, 'Channels': s['channels'], 'QuantizationBits': bits, 'BlockAlign': size * s['channels'], 'Length': s['duration_ts'], 'AverageBPS': int(s['bit_rate']) // 8,
                    'Compression': AUID('04020202-0000-0000-060e-2b3404010101')}
        depth, h, v = PIX[s['pix_fmt']]
        return {'class': 'CDCIDescriptor', 'SampleRate': Fraction(s['avg_frame_rate']), 'Length': int(s['nb_frames']), 'StoredWidth': s['width'], 'StoredHeight': s['height'], 'ImageAspectRatio': Fraction(s['width'], s['height']),
                'ComponentWidth': depth, 'HorizontalSubsampling': h, 'VerticalSubsampling': v, 'FrameLayout': 'FullFrame', 'VideoLineMap': [0, 0], 'Compression': compression(s['codec_name'], s.get('profile'))}

    def same(self, d, want, when):
        got = {'class': d.classdef.class_name}
        for k in want:
            if k == 'class':
                continue
            p = d.get(k, None)
            v = p.value if p is not None else None
            if k in ('SampleRate', 'AudioSamplingRate', 'ImageAspectRatio') and v is not None:
                v = Fraction(v.numerator, v.denominator)
            got[k] = bytes(v) if k == 'Summary' and v is not None else v
        for k in want:
            if got[k] != want[k]:
                self.bad('%s is %s, should be %s%s' % (k, got[k], want[k], when), 'descr:' + k)
        urls = [x['URLString'].value for x in d['Locator'].value]
        if [unquote(u[7:]) for u in urls] != [self.path] or urls[0][:8] != 'file:///' or any(ord(c) < 33 or ord(c) > 126 for c in urls[0]):
            self.bad('locator is %s, the path %s%s' % (urls, self.path, when), 'locator')


def make_wave(i, before, kind, ch, width, rate, frames, after, name=None):
    data, summary = wave_file(before, kind, ch, width, rate, frames, after)
    return Link(name or 'w%d.wav' % i, 'wav', data, summary, [audio_stream(rate, frames, ch, 's16', rate * ch * width * 8)])


def make_aiff(i, before, form, name, ch, width, rate, frames, after):
    data, summary = aiff_file(before, form, bytes(name.encode()), ch, width, rate, frames, after)
    return Link('a%d.aif' % i, 'aiff', data, summary, [audio_stream(rate, frames, ch, 's16', rate * ch * width * 8)])


def make_movie(i, streams):
    return Link('m%d.mov' % i, 'mov', None, None, [STREAMS[c]() for c in streams])


def make_video(i, kw):
    return Link('v%d.mp4' % i, 'mov', None, None, [video_stream(**kw)] + ([audio_stream()] if kw.get('frames') == 0 else []))


def make_audio(i, kw):
    return Link('v%d.m4a' % i, 'mov', None, None, [audio_stream(**kw)])


def make_name(i, name, kind):
    if kind == 'wav':
        data, summary = wave_file('', 'pcm', 1, 2, 48000, 5, '')
        return Link(name, 'wav', data, summary, [audio_stream(48000, 5, 1)])
    return Link(name, 'mov', None, None, [video_stream()])


MAKERS = {'wave': make_wave, 'aiff': make_aiff, 'movie': make_movie, 'video': make_video, 'audio': make_audio, 'name': make_name}


def run_links(case, t):
    what, args = case
    p, f = c23.fresh()
    try:
        try:
            links = []
            for i, a in enumerate(args):
                l = MAKERS[what](i, *a)
                t.step()
                l.start(f)
                l.check(f)
                links.append(l)
                t.state((what, str(a)))
            f.close()
            with aaf2.open(p, 'r') as g:
                if len(g.content.mobs) != 3 * len(links):
                    raise Violation('%d mobs after reopening' % len(g.content.mobs), 'mobs')
                for l in links:
                    l.check(g, ' after reopening')
        except Exception as e:
            if len(args) > 1:
                for a in args:
                    run_links([what, [a]], t)
            if isinstance(e, Violation):
                raise Violation('%s %s: %s' % (what, args[0] if len(args) == 1 else '(several)', e.msg), e.sig, case=[what, args])
            raise Violation('%s %s: %s: %s [%s]' % (what, args[0] if len(args) == 1 else '(several)', type(e).__name__, e, tb_tail(e)), 'exc:%s@%s' % (type(e).__name__, exc_site(e)), case=[what, args])
    finally:
        f.f.close()
        os.unlink(p)


def refused():
    ok = wave_file('', 'pcm', 1, 2, 48, 5, '')[0]
    ao = aiff_file('', 'AIFF', b'', 1, 2, 48, 5, '')[0]
    a, v = audio_stream(48, 5, 1), video_stream()
    junk = chunk(b'junk', bytes(31))
    out = [('rf64', 'wav', b'RF64' + ok[4:], [a]), ('rifx', 'wav', b'RIFX' + ok[4:], [a]), ('not wave', 'wav', ok[:8] + b'AVI ' + ok[12:], [a]), ('empty', 'wav', b'', [a]), ('cut in head', 'wav', ok[:10], [a]),
           ('no fmt', 'wav', b'RIFF' + struct.pack('<I', 100) + b'WAVE' + junk + chunk(b'data', bytes(24)), [a]), ('cut before fmt', 'wav', ok[:12] + junk, [a]), ('cut in chunk head', 'wav', ok[:12] + junk + b'fmt', [a]),
           ('missing', 'wav', None, [a]), ('no streams', 'wav', ok, []), ('only video', 'wav', ok, [v]),
           ('not form', 'aiff', b'MROF' + ao[4:], [a]), ('not aiff', 'aiff', ao[:8] + b'8SVX' + ao[12:], [a]), ('empty', 'aiff', b'', [a]), ('no comm', 'aiff', ao[:12] + be_chunk(b'SSND', bytes(31)), [a]), ('missing', 'aiff', None, [a]),
           ('cut', 'aiff', ao[:14], [a]), ('no streams', 'mov', b'', []), ('only data', 'mov', b'', [STREAMS['d']()])]
    for k in ('avg_frame_rate', 'nb_frames', 'pix_fmt', 'width', 'height'):
        s = video_stream()
        del s[k]
        out.append(('video without ' + k, 'mov', b'', [a, s]))
    for k in ('sample_rate', 'duration_ts', 'channels', 'sample_fmt', 'bit_rate'):
        s = audio_stream()
        del s[k]
        out.append(('audio without ' + k, 'mov', b'', [v, s]))
    return out


def run_refused(case, t):
    what, kind, data, streams = refused()[case[0]]
    p, f = c23.fresh()
    q = util.spath('c26-%d.x' % os.getpid())
    try:
        if data is not None:
            with open(q, 'wb') as g:
                g.write(data)
        m = f.create.MasterMob('m')
        f.content.mobs.append(m)
        before = aafrig.canon_file(f, skip=(aafrig.METADICT,))
        t.step()
        try:
            r = f.content.create_ama_link(q, probe(q, kind, streams))
        except Exception as e:
            r = None
        if r is not None:
            raise Violation('%s %s is linked' % (kind, what), 'accepted')
        after = aafrig.canon_file(f, skip=(aafrig.METADICT,))
        if after != before:
            raise Violation('%s %s is refused but changes the file: %s' % (kind, what, '; '.join(aafref.diff(before, after))), 'changed')
        f.close()
        with aaf2.open(p, 'r') as g:
            if [x.mob_id for x in g.content.mobs] != [m.mob_id]:
                raise Violation('%s %s: mobs after reopening: %s' % (kind, what, list(g.content.mobs)), 'changed')
        t.state(tuple(case))
    finally:
        f.f.close()
        os.unlink(p)
        if os.path.exists(q):
            os.unlink(q)


def run_unknown(case, t):
    """formats that cannot be linked"""
    p, f = c23.fresh()
    try:
        n = len(f.content.mobs)
        t.step()
        md = {'format': {'filename': '/x', 'format_name': case[0], 'format_long_name': case[1]}, 'streams': [video_stream(), audio_stream()]}
        try:
            r = f.content.create_ama_link('/x/y' + case[2], md)
        except Exception:
            r = None
        if r is not None or len(f.content.mobs) != n:
            raise Violation('%s is linked' % case, 'accepted')
    finally:
        f.f.close()
        os.unlink(p)


def waves(full):
    for before in words('zo1blf', 3 if full else 2):
        for kind in ('pcm', 'pcm18', 'ext', 'float', 'long') if len(before) < 2 or full else ('pcm', 'ext'):
            yield before, kind, 2, 2, 48000, 7, ''
    for before in ('x', 'X', 'xX', 'y', 'cC'):
        for kind in ('pcm', 'ext'):
            yield before, kind, 2, 2, 48000, 7, ''
    for kind in ('pcm', 'pcm18', 'ext', 'float'):
        for ch in (1, 2, 6, 16):
            for width in (1, 2, 3, 4):
                yield 'b', kind, ch, width, 44100, 3, 'fn'
    for rate in (8000, 11025, 32000, 44100, 48000, 88200, 96000, 192000):
        for frames in (0, 1, 2, 999):
            yield '', 'pcm', 1, 2, rate, frames, 'n'


def aiffs(full):
    for before in ('c', 'C', 'cC'):
        for form in ('AIFF', 'AIFC'):
            yield before, form, '', 2, 2, 48000, 3, ''
    for before in words('zo1bs', 3 if full else 2):
        for form in ('AIFF', 'AIFC'):
            yield before, form, 'x' * len(before), 2, 2, 48000, 7, 'n'
    for name in ('', 'a', 'ab', 'not compressed', 'x' * 254):
        yield 'z', 'AIFC', name, 1, 3, 44100, 5, ''
    for ch in (1, 2, 8):
        for width in (1, 2, 3):
            for rate in (8000, 44100, 96000):
                yield '', 'AIFF', '', ch, width, rate, 3, ''


def movies(full):
    for w in words('vwamsdt', 4 if full else 3):
        if set(w) & set('vwams'):
            yield [w]


def videos():
    for pix in sorted(PIX):
        yield [{'pix': pix}]
    for codec in ('h264', 'prores', 'mjpeg', 'hevc', 'dnxhd'):
        for profile in sorted(PROFILES, key=str):
            yield [{'codec': codec, 'profile': profile}]
    for rate in ('24/1', '25/1', '24000/1001', '30000/1001', '60000/1001', '50/2', '15/2', '2997/100', '1/1'):
        for n in (0, 1, 2, 107892, (1 << 31) + 5):
            yield [{'rate': rate, 'frames': n}]
    for w, h in ((1, 1), (1920, 1080), (720, 576), (4096, 2160), (1080, 1920), (65536, 3)):
        yield [{'w': w, 'h': h}]


def audios():
    for sf in sorted(SAMPLE):
        for ch in (1, 2, 6, 8, 9, 17, 32):
            yield [{'sf': sf, 'ch': ch}]
    for rate in (8000, 44100, 48000, 96000):
        for n in (0, 1, 48000, (1 << 40) + 1):
            yield [{'rate': rate, 'length': n}]
    for bits in (8, 15, 128001, (1 << 32) + 9):
        yield [{'bits': bits}]


NAMES = ['a', 'a b', 'a%20b', 'a#b', 'a?b', 'é', '\u4e2d\u6587', '\U0001f3ac', 'a.b.c', '.hidden', 'a&b=c;d', "q'uote", 'qu"ote', '[x](y)', 'a+b', 'a:b', 'tab\tx', 'back\\slash', '~', 'A' * 200]


def names():
    for n in NAMES:
        for ext, kind in (('.wav', 'wav'), ('.WAV', 'wav'), ('', 'wav'), ('.mov', 'mov'), ('.MP4', 'mov')):
            if ext or not n.startswith('.'):
                yield n + ext, kind


def batches(what, gen, n):
    return c23.batches(what, gen, n)


def spaces(tier):
    full = tier != 'quick'
    lim = 120 if not full else 900
    return [
        Space('waves', batches('wave', lambda: waves(full), 40), run_links, 'words of chunks before the format chunk x its form x channels x width x rate', cpu_limit=lim),
        Space('aiffs', batches('aiff', lambda: aiffs(full), 40), run_links, 'words of chunks before COMM x form x names', cpu_limit=lim),
        Space('movies', batches('movie', lambda: movies(full), 40), run_links, 'every word of streams', cpu_limit=lim),
        Space('videos', batches('video', videos, 40), run_links, 'pixel formats, codecs x profiles, rates x lengths, sizes', cpu_limit=lim),
        Space('audios', batches('audio', audios, 40), run_links, 'sample formats x channels, rates x lengths', cpu_limit=lim),
        Space('names', batches('name', names, 30), run_links, 'file names', cpu_limit=lim),
        Space('refused', lambda: ([i] for i in range(len(refused()))), run_refused, 'headers and metadata that cannot be linked', cpu_limit=lim),
        Space('unknown', lambda: ([a, b, c] for a, b in (('mp3', 'MP2/3'), ('matroska,webm', 'Matroska / WebM'), ('avi', 'AVI'), ('', '')) for c in ('.mp3', '.mkv', '')), run_unknown, 'formats that cannot be linked', cpu_limit=lim),
    ]
