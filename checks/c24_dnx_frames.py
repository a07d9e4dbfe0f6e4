"""C24: video streams are split into exactly the frames they contain.

Frame headers are built field by field from an independent description of the
format (DNxHD and DNxHR: prefix, size, depth, compression id, sampling) and every
compression id, depth, field order, data offset and a grid of sizes is decoded;
every single-bit change of the fixed part of the prefix and every header length is
offered too.  Streams are every word of frames over several kinds up to a length,
cut at every position class of the last frame, read through several kinds of file."""
import io, itertools, os, struct
from aaf2 import video
from lib import util
from lib.mc import Space, Violation, words, exc_site, tb_tail

LEVEL = 'model_checking'
ASSUMPTIONS = ['frame sizes are below 32768 pixels each way',
               'the stream is read through a file that gives all the bytes asked for unless it ends']

# compression id: bytes of a coded frame (SMPTE VC-3)
HD = {1235: 917504, 1237: 606208, 1238: 917504, 1241: 917504, 1242: 606208, 1243: 917504, 1244: 606208, 1250: 458752, 1251: 458752, 1252: 303104,
      1253: 188416, 1256: 1835008, 1258: 212992, 1259: 417792, 1260: 835584}
# compression id: bytes for 255 macroblocks
HR = {1270: 57344, 1271: 28672, 1272: 28672, 1273: 18944, 1274: 5888}


def frame_size(cid, w, h):
    if cid in HD:
        return HD[cid]
    mb = -(-h // 16) * -(-w // 16)
    n = mb * HR[cid] // 255
    n = (n + 2048) // 4096 * 4096
    return max(n, 8192)


def header(cid, w, h, depth=8, interlaced=False, offset=None, sub444=False, fill=0):
    b = bytearray(util.pattern(fill, 640))
    if offset is None:
        b[0:5] = b'\x00\x00\x02\x80\x01'
    else:
        b[0:5] = struct.pack('>HHB', 0, offset, 3)
    b[5] = 2 if interlaced else 1
    struct.pack_into('>hh', b, 24, h, w)
    b[33] = {8: 1, 10: 2, 12: 3}[depth] << 5 | (fill & 0x1f)
    struct.pack_into('>i', b, 40, cid)
    b[44] = (fill & 0xbf) | (0x40 if sub444 else 0)
    return bytes(b)


def decode(head):
    try:
        return video.read_dnx_frame_header(head)
    except (ValueError, NotImplementedError) as e:
        return type(e)
    except Exception as e:
        raise Violation('header is refused with %s: %s' % (type(e).__name__, e), 'refusal')


SIZES = [(1920, 1080), (1440, 1080), (1280, 720), (960, 720), (3840, 2160), (4096, 2160), (2048, 1080), (256, 120), (16, 16), (17, 33), (15, 1), (1, 1), (255, 256), (257, 511), (8192, 4320), (32767, 16)]


def run_header(case, t):
    """case: compression id"""
    cid = case[0]
    for (w, h), depth, il, fill in itertools.product(SIZES, (8, 10, 12), (False, True), (0, 77)):
        for offset in ([None] if cid in HD else [0x0280, 0x2170, 0x1000]):
            t.step()
            head = header(cid, w, h, depth, il, offset, fill=fill)
            want = (cid, w, h, depth, il)
            got = decode(head)
            if got != want:
                raise Violation('header of id %d, %dx%d, %d bit, interlaced %s decodes to %s' % (cid, w, h, depth, il, got), 'decode', case=[cid])
            if decode(header(cid, w, h, depth, il, offset, True, fill)) is not NotImplementedError:
                raise Violation('4:4:4 header is not refused', 'refuse', case=[cid])
        n = video.dnx_frame_size(cid, w, h)
        if n != frame_size(cid, w, h):
            raise Violation('frame of id %d, %dx%d takes %d bytes, should be %d' % (cid, w, h, n, frame_size(cid, w, h)), 'size', case=[cid])
        t.state((cid, w, h, depth, il, n))


def run_prefix(case, t):
    """case: what is varied"""
    if case[0] == 'offset':
        for off in range(0, 0x10000, 1):
            t.step()
            head = bytearray(header(1274, 1920, 1080, offset=off))
            ok = 0x280 <= off <= 0x2170 and off % 4 == 0
            got = decode(bytes(head))
            if (got == (1274, 1920, 1080, 8, False)) != ok:
                raise Violation('data offset 0x%x gives %s' % (off, got), 'prefix')
            t.state((off, ok))
    elif case[0] == 'bits':
        for base in (header(1238, 1920, 1080), header(1274, 1920, 1080, offset=0x280)):
            for i in range(40):
                for j in range(i, 40):
                    t.step()
                    head = bytearray(base)
                    head[i // 8] ^= 0x80 >> i % 8
                    if j != i:
                        head[j // 8] ^= 0x80 >> j % 8
                    p = bytes(head[:5])
                    off = struct.unpack('>H', p[2:4])[0]
                    ok = p == b'\x00\x00\x02\x80\x01' or (p[:2] == b'\0\0' and p[4] == 3 and 0x280 <= off <= 0x2170 and off % 4 == 0)
                    got = decode(bytes(head))
                    if isinstance(got, tuple) != ok:
                        raise Violation('prefix %s gives %s' % (p.hex(), got), 'prefix')
                    t.state(p)
    elif case[0] == 'length':
        base = header(1238, 1920, 1080)
        for n in range(0, 1281):
            t.step()
            got = decode((base + base)[:n])
            if isinstance(got, tuple) != (n >= 640):
                raise Violation('header of %d bytes gives %s' % (n, got), 'length')
            t.state(n)
    elif case[0] == 'depth':
        for v in range(256):
            for il in range(256):
                t.step()
                head = bytearray(header(1238, 1920, 1080))
                head[33] = v
                head[5] = il
                got = decode(bytes(head))
                want = (1238, 1920, 1080, {1: 8, 2: 10, 3: 12}.get(v >> 5), il & 2 != 0)
                if (got if v >> 5 in (1, 2, 3) else isinstance(got, tuple)) != (want if v >> 5 in (1, 2, 3) else False):
                    raise Violation('depth byte 0x%02x, field byte 0x%02x give %s' % (v, il, got), 'depth')
            t.state(v)
    else:
        for cid in list(range(1200, 1300)) + [0, -1, 1 << 30]:
            if cid in HD or cid in HR:
                continue
            t.step()
            f = io.BytesIO(header(max(cid, -1), 1920, 1080) + bytes(2000000))
            try:
                got = list(itertools.islice(video.iter_dnx_stream(f), 3))
            except Exception:
                continue
            raise Violation('stream of unknown compression id %d gives frames of %s bytes' % (cid, [len(x) for x in got]), 'cid')


def prefix_cases():
    for w in ('offset', 'bits', 'length', 'depth', 'cid'):
        yield [w]


# kinds of frames used in streams: id, size, depth, interlaced, offset
KINDS = {'l': (1274, 256, 120, 8, False, 0x280), 'q': (1273, 1280, 720, 8, False, 0x280), 'h': (1253, 1920, 1080, 8, False, None), 'x': (1271, 640, 360, 10, False, 0x1000), 'i': (1244, 1440, 1080, 8, True, None), 'y': (1252, 1280, 720, 10, False, None)}


def frame(kind, salt):
    k = (kind, salt)
    if k not in _frames:
        cid, w, h, depth, il, off = KINDS[kind]
        _frames[k] = header(cid, w, h, depth, il, off, fill=salt) + bytes(util.pattern(salt + 1, frame_size(cid, w, h) - 640))
    return _frames[k]


_frames = {}
CUTS = ['whole', 1, 2, 638, 639, 640, 641, 1000, -4096, -640, -2, -1]


def opened(data, medium):
    if medium == 'mem':
        return io.BytesIO(data)
    p = util.spath('c24-%d' % os.getpid())
    with open(p, 'wb') as f:
        f.write(data)
    return io.open(p, 'rb', buffering=io.DEFAULT_BUFFER_SIZE)


def run_stream(case, t):
    """case: words of frames, medium"""
    for word in case[0]:
        fr = [frame(k, i) for i, k in enumerate(word)]
        for cut in CUTS if word else ['whole']:
            if cut == 'whole':
                data, n = b''.join(fr), len(fr)
            else:
                data, n = b''.join(fr[:-1]) + fr[-1][:cut], len(fr) - 1
            f = opened(data, case[1])
            t.step()
            try:
                got, err = [], None
                try:
                    for x in video.iter_dnx_stream(f):
                        got.append(bytes(x))
                except Exception as e:
                    err = e
            finally:
                f.close()
            if got != fr[:n]:
                raise Violation('stream of %d bytes, frames %s%s: split into %s bytes' % (len(data), [len(x) for x in fr], '' if cut == 'whole' else ', the last cut at %d' % cut, [len(x) for x in got]), 'split', case=[[word], case[1]])
            if cut == 'whole' and err is not None:
                raise Violation('stream of frames %s ends with %s' % ([len(x) for x in fr], err), 'error', case=[[word], case[1]])
            t.state((word, cut))
        # bytes that are no frame follow
        for junk in (bytes(640), b'\xff' * 700):
            f = opened(b''.join(fr) + junk, case[1])
            t.step()
            got, err = [], None
            try:
                for x in video.iter_dnx_stream(f):
                    got.append(bytes(x))
            except Exception as e:
                err = e
            finally:
                f.close()
            if got != fr or not err:
                raise Violation('frames %s followed by %d bytes that are no frame: split into %s bytes, error %s' % ([len(x) for x in fr], len(junk), [len(x) for x in got], err), 'junk', case=[[word], case[1]])


def stream_cases(n, kinds, media, batch):
    def gen():
        ws = [''.join(w) for k in range(0, n + 1) for w in words(kinds, k, k)]
        for m in media:
            for i in range(0, len(ws), batch):
                yield [ws[i:i + batch], m]
    return gen


def run_all_cuts(case, t):
    """case: kind, range of cuts: one frame, then one cut at every position of the range"""
    kind, lo, hi, step = case
    a, b = frame(kind, 1), frame(kind, 2)
    for cut in range(lo, min(hi, len(b) + 1), step):
        t.step()
        got = [bytes(x) for x in video.iter_dnx_stream(io.BytesIO(a + b[:cut]))]
        if got != ([a, b] if cut == len(b) else [a]):
            raise Violation('frame of %d bytes cut at %d is presented as %s' % (len(b), cut, [len(x) for x in got[1:]]), 'cut', case=[kind, cut, cut + 1, 1])
        t.state((kind, cut))


def cut_cases(kinds, step):
    def gen():
        for k in kinds:
            n = len(frame(k, 1))
            for lo in range(0, n + 1, step * 1024):
                yield [k, lo, lo + step * 1024, step]
    return gen


def spaces(tier):
    ids = lambda: [[c] for c in sorted(HD) + sorted(HR)]
    out = [Space('header', ids, run_header, 'every supported compression id x sizes x depth x field order x data offset', cpu_limit=60),
           Space('prefix', prefix_cases, run_prefix, 'every data offset, every change of one or two bits of the prefix, every header length, every depth and field byte, unsupported ids', cpu_limit=120)]
    if tier == 'quick':
        return out + [Space('stream', stream_cases(3, 'lqx', ['mem'], 4), run_stream, 'every word of up to 3 frames of 3 kinds x place where the last one ends', cpu_limit=60),
                      Space('stream-hd', stream_cases(2, 'hiy', ['file'], 3), run_stream, 'every word of up to 2 DNxHD frames x place where the last one ends', cpu_limit=60),
                      Space('cuts', cut_cases('l', 1), run_all_cuts, 'every position at which a frame can be cut', cpu_limit=60)]
    return out + [Space('stream', stream_cases(4, 'lqhxiy', ['mem'], 16), run_stream, 'every word of up to 4 frames of 6 kinds x place where the last one ends', cpu_limit=600),
                  Space('stream-file', stream_cases(3, 'lqhxiy', ['file'], 8), run_stream, 'the same through a buffered file, up to 3', cpu_limit=600),
                  Space('cuts', cut_cases('l', 1), run_all_cuts, 'every position at which a frame can be cut', cpu_limit=60),
                  Space('cuts-large', cut_cases('qhxiy', 97), run_all_cuts, 'every 97th position of larger frames', cpu_limit=600)]
