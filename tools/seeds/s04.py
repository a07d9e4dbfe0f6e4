ID = 'c04-flip-misses-sibling'
PROPERTY = 'C04'
NEEDS = 'particular orders of removing entries from a directory with some dozen siblings'
BREAKS = 'a color flip on removal leaves the sibling black, so the tree is no longer balanced and becomes deeper than it may be'
EDITS = [('cfb.py', "                            parent.red = False\n                            sibling.red = True\n                            node.red = True\n", "                            parent.red = False\n                            node.red = True\n")]
DEMO = '''
import io, sys, random, math
from aaf2.cfb import CompoundFileBinary
class F(object):
    def __init__(self): self.b = io.BytesIO()
    def __getattr__(self, n): return getattr(self.b, n)
def height(e):
    return 0 if e is None else 1 + max(height(e.left()), height(e.right()))
for seed in range(150):
    r = random.Random(seed)
    n = r.randint(20, 40)
    c = CompoundFileBinary(F(), 'wb+', 512)
    names = ['%02d' % i for i in range(n)]
    if seed % 3 == 0:
        r.shuffle(names)
    for x in names:
        c.open('/' + x, 'w')
    if seed % 3 != 1:
        r.shuffle(names)
    for x in names:
        c.remove('/' + x)
        n -= 1
        if height(c.root.child()) > 2 * math.log(n + 1, 2) + 1:
            print('seed', seed, 'height', height(c.root.child()), 'entries', n)
            sys.exit(1)
'''
