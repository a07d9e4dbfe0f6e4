ID = 'c30-chain-back-to-start'
PROPERTY = 'C30'
NEEDS = 'a sector chain that links back to its own first sector'
BREAKS = 'following it never ends and memory fills up'
EDITS = [('cfb.py', "                    if a == b:\n                        raise CompoundFileBinaryError('cyclic", "                    if a == b and a != start_sid:\n                        raise CompoundFileBinaryError('cyclic")]
DEMO = '''
import io, resource, signal, sys
from aaf2.cfb import CompoundFileBinary, CompoundFileBinaryError
resource.setrlimit(resource.RLIMIT_AS, (1 << 30, 1 << 30))
signal.alarm(60)
class F(object):
    def __init__(self):
        self.f = io.BytesIO()
    def __getattr__(self, name):
        return getattr(self.f, name)
ok = True
for n in (2, 3, 4, 5, 8):
    f = F()
    c = CompoundFileBinary(f, 'wb+', sector_size=4096)
    c.open('/a', 'w').write(b'x' * 4096 * n)
    chain = c.get_fat_chain(c.find('/a').sector_id)
    c.fat[chain[-1]] = chain[0]
    c.close()
    f.seek(0)
    c = CompoundFileBinary(f, 'rb')
    try:
        c.get_fat_chain(c.find('/a').sector_id)
        ok = False
    except CompoundFileBinaryError:
        pass
    except MemoryError:
        ok = False
sys.exit(0 if ok else 1)
'''
