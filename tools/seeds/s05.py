ID = 'c05-third-list-sector'
PROPERTY = 'C05'
NEEDS = 'a file large enough to need a third sector of the allocation-table list (about 24 MB with 512-byte sectors)'
BREAKS = 'the third list sector is linked from the first one, losing the second: the file cannot be closed or read back'
EDITS = [('cfb.py', "self.difat[-1][-1] = new_difat_sect", "self.difat[1][-1] = new_difat_sect")]
DEMO = '''
import io, sys
from aaf2.cfb import CompoundFileBinary
class F(object):
    def __init__(self): self.b = io.BytesIO()
    def __getattr__(self, n): return getattr(self.b, n)
f = F()
try:
    c = CompoundFileBinary(f, 'wb+', sector_size=512)
    data = bytes(bytearray(range(251))) * 100000
    c.open('/a', 'w').write(data)
    c.close()
    c = CompoundFileBinary(f, 'rb')
    ok = bytes(c.open('/a', 'r').read()) == data
except Exception as e:
    print(repr(e)); ok = False
sys.exit(0 if ok else 1)
'''
