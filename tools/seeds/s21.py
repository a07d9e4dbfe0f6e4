ID = 'c21-clip-start-past-origin'
PROPERTY = 'C21'
NEEDS = 'a clip created over a slot whose origin is not zero'
BREAKS = 'the origin of the slot is added to the start of the clip, which then begins later than asked and covers less of the slot'
EDITS = [('mobs.py', "        clip.start = start or 0\n", "        clip.start = (start or 0) + getattr(source_slot, 'origin', 0)\n")]
DEMO = '''
import sys
import aaf2
with aaf2.open() as f:
    m = f.create.MasterMob('m')
    f.content.mobs.append(m)
    got = []
    for origin in (0, 5):
        slot = m.create_picture_slot(25)
        slot.origin = origin
        slot.segment.components.append(f.create.Filler('picture', 20))
        for start in (None, 0, 3):
            c = m.create_source_clip(slot.slot_id, start)
            got.append((c.start, c.length))
    ok = got == [(0, 20), (0, 20), (3, 17)] * 2
sys.exit(0 if ok else 1)
'''
