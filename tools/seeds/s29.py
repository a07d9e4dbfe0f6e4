ID = 'c29-source-without-slot'
PROPERTY = 'C29'
NEEDS = 'a source clip whose mob id has a label but an all-zero material part'
BREAKS = 'a reference to a mob whose id has a zero material part is treated as no reference, so the mob is missed'
EDITS = [('components.py', "        if mod_id is None or mod_id.int == 0:\n            return None\n", "        if mod_id is None or mod_id.material.int == 0 or mod_id.int == 0:\n            return None\n")]
DEMO = '''
import sys
import aaf2
from aaf2.mobid import MobID
with aaf2.open() as f:
    a = f.create.MasterMob('a')
    b = f.create.MasterMob('b')
    b.mob_id = MobID(int=(0x060a2b340101010501010f2013000001) << 128)
    f.content.mobs.append(a)
    f.content.mobs.append(b)
    s = b.create_picture_slot()
    t = a.create_timeline_slot(25)
    t.segment = b.create_source_clip(s.slot_id, 0, 5)
    ok = [m.name for m in a.dependant_mobs()] == ['b']
sys.exit(0 if ok else 1)
'''
