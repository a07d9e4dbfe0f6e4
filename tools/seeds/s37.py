ID = 'c25-long-items-skipped'
PROPERTY = 'C25'
NEEDS = 'a metadata set with an item of 32768 bytes or more (a package name of over 16000 characters)'
BREAKS = 'such an item is skipped: the mob is linked without its name'
EDITS = [('mxf.py', "        if size:\n            yield tag, f.read(size)", "        if 0 < size < 0x8000:\n            yield tag, f.read(size)\n        else:\n            f.seek(size, 1)")]
DEMO = '''
import io, struct, sys
from aaf2 import mxf
ok = True
for n in (0, 1, 500, 32767, 32768, 65535):
    data = struct.pack('>HH', 0x4402, n) + b'x' * n + struct.pack('>HH', 0x4401, 2) + b'yz'
    got = [(t, bytes(d)) for t, d in mxf.iter_tags(io.BytesIO(data), len(data))]
    want = ([(0x4402, b'x' * n)] if n else []) + [(0x4401, b'yz')]
    ok = ok and got == want
sys.exit(0 if ok else 1)
'''
