ID = 'c27-sector-kept-before-read'
PROPERTY = 'C27'
NEEDS = 'reading a sector fails once and is tried again'
BREAKS = 'the sector is remembered before it has been read, so the second try returns zeros'
EDITS = [('cfb.py', "            sector_data = bytearray(self.sector_size)\n            # NOTE: if requested sector doesn't exist or\n            # is truncated will pad with zeros, expected behavior\n            bytes_read = self.f.readinto(sector_data)\n            self.sector_cache[sid] = sector_data\n            return sector_data\n", "            sector_data = bytearray(self.sector_size)\n            self.sector_cache[sid] = sector_data\n            # NOTE: if requested sector doesn't exist or\n            # is truncated will pad with zeros, expected behavior\n            bytes_read = self.f.readinto(sector_data)\n            return sector_data\n")]
DEMO = '''
import io, sys
from aaf2.cfb import CompoundFileBinary
class F(object):
    fail = False
    def __init__(self):
        self.f = io.BytesIO()
    def __getattr__(self, name):
        return getattr(self.f, name)
    def readinto(self, b):
        if self.fail:
            self.fail = False
            raise IOError('bad sector')
        return self.f.readinto(b)
f = F()
c = CompoundFileBinary(f, 'wb+')
data = bytes(range(256)) * 100
c.open('/a', 'w').write(data)
small = b'small' * 100
c.open('/b', 'w').write(small)
c.close()
f.seek(0)
ok = True
for name, want in (('/a', data), ('/b', small)):
    c = CompoundFileBinary(f, 'rb')
    c.find(name)
    f.fail = True
    try:
        c.open(name, 'r').read()
    except IOError:
        pass
    ok = ok and c.open(name, 'r').read() == want
    c.close()
sys.exit(0 if ok else 1)
'''
