ID = 'c02-minifat-count'
PROPERTY = 'C02'
NEEDS = 'more small-stream data than one mini allocation sector can describe, and a reader that trusts the header'
BREAKS = 'the header counts one mini allocation-table sector however many the file has'
EDITS = [('cfb.py', "            self.minifat_sector_count += 1\n", "            self.minifat_sector_count = max(1, self.minifat_sector_count)\n")]
DEMO = '''
import io, sys, struct
from aaf2.cfb import CompoundFileBinary
class F(object):
    def __init__(self): self.b = io.BytesIO()
    def __getattr__(self, n): return getattr(self.b, n)
f = F()
c = CompoundFileBinary(f, 'wb+', sector_size=512)
for i in range(5):
    c.open('/s%d' % i, 'w').write(b'q' * 4000)
c.close()
d = f.b.getvalue()
start, count = struct.unpack_from('<II', d, 60)
fat0 = struct.unpack_from('<I', d, 76)[0]
fat = struct.unpack_from('<128I', d, (fat0 + 1) * 512)
n = 0
while start < 0xfffffffa and n < 100:
    n += 1
    start = fat[start]
print(count, n)
sys.exit(0 if count == n else 1)
'''
