ID = 'c24-first-frame-size'
PROPERTY = 'C24'
NEEDS = 'a stream whose frames do not all have the same compression id or size'
BREAKS = 'later frames are cut to the size of the first'
EDITS = [('video.py', "        cid, width, height, bitdepth, interlaced = read_dnx_frame_header(dnx_header)\n        frame_size = dnx_frame_size(cid, width, height)\n\n        with BytesIO", "        header = read_dnx_frame_header(dnx_header)\n        if frame_size is None:\n            cid, width, height, bitdepth, interlaced = header\n            frame_size = dnx_frame_size(cid, width, height)\n\n        with BytesIO"),
 ('video.py', "def iter_dnx_stream(f):\n    while True:\n", "def iter_dnx_stream(f):\n    frame_size = None\n    while True:\n")]
DEMO = '''
import io, struct, sys
from aaf2 import video
def header(cid, w, h):
    b = bytearray(640)
    b[0:5] = b'\\x00\\x00\\x02\\x80\\x01'
    b[0x18:0x1c] = struct.pack('>HH', h, w)
    b[0x21] = 1 << 5
    b[0x28:0x2c] = struct.pack('>I', cid)
    return bytes(b)
frames = []
for cid in (1253, 1237):
    h = header(cid, 1920, 1080)
    n = video.dnx_frame_size(cid, 1920, 1080)
    frames.append(h + bytes([cid % 251]) * (n - len(h)))
try:
    ok = list(video.iter_dnx_stream(io.BytesIO(b''.join(frames)))) == frames
except Exception as ex:
    print(repr(ex))
    ok = False
sys.exit(0 if ok else 1)
'''
