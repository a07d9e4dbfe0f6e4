ID = 'c20-unsorted-slot-ids'
PROPERTY = 'C20'
NEEDS = 'slots whose ids are not in ascending order'
BREAKS = 'the next slot is given an id another slot already has'
EDITS = [('mobs.py', "        slots.sort()\n", "")]
DEMO = '''
import sys
import aaf2
with aaf2.open() as f:
    m = f.create.MasterMob()
    for i in (1, 3, 2):
        m.create_timeline_slot(25, i)
    ids = [m.create_timeline_slot(25).slot_id for i in range(3)]
    ok = sorted(ids) == [4, 5, 6]
sys.exit(0 if ok else 1)
'''
