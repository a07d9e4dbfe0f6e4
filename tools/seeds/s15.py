ID = 'c15-copied-vector-key'
PROPERTY = 'C15'
NEEDS = 'an object with a vector of owned objects is copied within its file, and another element is added to the copy'
BREAKS = 'the copy hands out storage keys from zero again; the added element is stored over an existing one'
EDITS = [('properties.py', "            p.index_name = self.index_name\n            p.next_free_key = self.next_free_key\n            p.last_free_key = self.last_free_key\n            p.data = self.data\n", "            p.index_name = self.index_name\n            p.last_free_key = self.last_free_key\n            p.data = self.data\n")]
DEMO = '''
import os, sys, tempfile, shutil
import aaf2
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'x.aaf')
    try:
        with aaf2.open(p, 'w') as f:
            m = f.create.CompositionMob('m')
            f.content.mobs.append(m)
            s = m.create_picture_slot()
            s.segment.components.extend([f.create.Filler('picture', i) for i in (1, 2)])
            n = f.create.CompositionMob('n')
            f.content.mobs.append(n)
            t = n.create_timeline_slot(25)
            c = s.segment.copy()
            t.segment = c
            c.components.append(f.create.Filler('picture', 3))
        with aaf2.open(p, 'r') as f:
            got = [[c.length for c in list(m.slots)[0].segment.components] for m in sorted(f.content.mobs, key=lambda m: m.name)]
        ok = got == [[1, 2], [1, 2, 3]]
        print(got)
    except Exception as e:
        print(repr(e))
        ok = False
finally:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)
'''
