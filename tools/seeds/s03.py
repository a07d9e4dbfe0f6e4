ID = 'c03-stale-child-list'
PROPERTY = 'C03'
NEEDS = 'a storage whose contents were listed is tree-removed, and its directory slot is reused by a new storage in the same session'
BREAKS = 'the new storage lists the children of the removed one'
EDITS = [('cfb.py', "        if entry.dir_id in self.children_cache:\n            del self.children_cache[entry.dir_id]\n\n        if entry.dir_id in self.modified:", "        if entry.dir_id in self.modified:")]
DEMO = '''
import io, sys
from aaf2.cfb import CompoundFileBinary
class F(object):
    def __init__(self): self.b = io.BytesIO()
    def __getattr__(self, n): return getattr(self.b, n)
f = F()
c = CompoundFileBinary(f, 'wb+')
c.makedirs('/a/b')
c.open('/a/b/x', 'w').write(b'1')
c.rmtree('/a')
ok = True
for i in range(40):
    e = c.makedir('/n%d' % i)
    if list(c.listdir('/n%d' % i)):
        ok = False
sys.exit(0 if ok else 1)
'''
