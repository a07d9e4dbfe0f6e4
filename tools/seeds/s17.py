ID = 'c17-vector-item-check-late'
PROPERTY = 'C17'
NEEDS = 'an element of a vector is replaced by an object of a class the vector does not accept'
BREAKS = 'the old element has been taken out when the new one is refused'
EDITS = [('properties.py', "            raise IndexError(\"StrongRefVectorProperty assignment index out of range\")\n\n        assert self.ref_classdef.isinstance(value.classdef)\n\n        if value.root", "            raise IndexError(\"StrongRefVectorProperty assignment index out of range\")\n\n        if value.root"),
 ('properties.py', "        obj = self.get(index, None)\n        if obj:\n            obj.detach()\n\n        self.objects[index] = value\n", "        obj = self.get(index, None)\n        if obj:\n            obj.detach()\n\n        assert self.ref_classdef.isinstance(value.classdef)\n        self.objects[index] = value\n")]
DEMO = '''
import sys
import aaf2
with aaf2.open() as f:
    m = f.create.MasterMob()
    f.content.mobs.append(m)
    s = m.create_timeline_slot(25)
    s.segment = f.create.Sequence('picture')
    s.segment.components.value = [f.create.Filler('picture', 5), f.create.Filler('picture', 7)]
    old = s.segment.components[1]
    try:
        s.segment.components[1] = f.create.MasterMob()
        ok = False
    except Exception:
        ok = old.dir is not None
sys.exit(0 if ok else 1)
'''
