ID = 'c08-write-leaves-stale-sector'
PROPERTY = 'C08'
NEEDS = 'a sector of a large stream that was read, is overwritten by a write that starts in another sector, and is read again while it is still cached'
BREAKS = 'only the first sector of a write drops its cached copy: reads give the old bytes as long as the sector stays cached'
EDITS = [('cfb.py', "            if sid in sector_cache:\n                del sector_cache[sid]\n\n            f.seek(seek_pos)\n", "            if self.pos % full_sector_size or byte_writeable < full_sector_size:\n                if sid in sector_cache:\n                    del sector_cache[sid]\n\n            f.seek(seek_pos)\n")]
DEMO = '''
import io, sys
from aaf2.cfb import CompoundFileBinary
f = io.BytesIO()
c = CompoundFileBinary(f, 'wb+', sector_size=512)
s = c.open('/a', 'w')
s.write(b'a' * 8192)
s.seek(0)
s.read()
s.seek(0)
s.write(b'b' * 8192)
s.seek(0)
sys.exit(0 if bytes(s.read()) == b'b' * 8192 else 1)
'''
