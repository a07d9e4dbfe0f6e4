ID = 'c01-truncate-position'
PROPERTY = 'C01'
NEEDS = 'a stream shrunk by truncate to a size below its position without changing its kind of sectors, then written again'
BREAKS = 'the position stays beyond the new end, and the next write exposes the cut-off bytes again'
EDITS = [('cfb.py', "        self.dir.byte_size = size\n        self.pos = min(self.pos, size)\n", "        self.dir.byte_size = size\n")]
DEMO = '''
import io, sys
from aaf2.cfb import CompoundFileBinary
class F(object):
    def __init__(self): self.b = io.BytesIO()
    def __getattr__(self, n): return getattr(self.b, n)
f = F()
c = CompoundFileBinary(f, 'wb+', sector_size=512)
s = c.open('/a', 'w')
s.write(b'x' * 5000)
s.truncate(4500)
s.write(b'y' * 10)
d = bytes(c.open('/a', 'r').read())
ok = d in (b'x' * 4500 + b'y' * 10, b'x' * 4500 + bytes(500) + b'y' * 10)
sys.exit(0 if ok else 1)
'''
