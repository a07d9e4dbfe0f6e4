ID = 'c13-replaced-element-stays-attached'
PROPERTY = 'C13'
NEEDS = 'an element of an attached vector is replaced by item assignment and afterwards attached somewhere else'
BREAKS = 'the replaced object still counts as attached to its old place and is refused elsewhere'
EDITS = [('properties.py', "        obj = self.get(index, None)\n        if obj:\n            obj.detach()\n\n        self.objects[index] = value\n", "        obj = self.get(index, None)\n        if obj and not self.attached:\n            obj.detach()\n\n        self.objects[index] = value\n")]
DEMO = '''
import sys
import aaf2
with aaf2.open() as f:
    m = f.create.CompositionMob('m')
    f.content.mobs.append(m)
    slot = m.create_picture_slot()
    a, b = f.create.Filler('picture', 1), f.create.Filler('picture', 2)
    slot.segment.components.append(a)
    slot.segment.components[0] = b
    try:
        slot.segment.components.append(a)
        ok = [c.length for c in slot.segment.components] == [2, 1] and b.dir is not None
    except Exception as e:
        print(repr(e))
        ok = False
sys.exit(0 if ok else 1)
'''
