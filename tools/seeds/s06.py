ID = 'c06-mini-sectors-lost'
PROPERTY = 'C06'
NEEDS = 'repeatedly rewriting small streams within one session'
BREAKS = 'mini sectors released by a stream of more than one mini sector are only partly returned to the free list, so the file grows with every rewrite'
EDITS = [('cfb.py', "                self.minifat_freelist.insert(0, sid)\n", "                if sid == start_sid:\n                    self.minifat_freelist.insert(0, sid)\n")]
DEMO = '''
import io, sys
from aaf2.cfb import CompoundFileBinary
class F(object):
    def __init__(self): self.b = io.BytesIO()
    def __getattr__(self, n): return getattr(self.b, n)
f = F()
c = CompoundFileBinary(f, 'wb+')
sizes = []
for i in range(200):
    c.open('/a', 'w').write(b'v' * 2000)
    sizes.append(len(f.b.getvalue()))
print(sizes[5], sizes[-1])
sys.exit(0 if sizes[-1] <= sizes[5] else 1)
'''
