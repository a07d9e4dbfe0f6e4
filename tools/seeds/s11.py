ID = 'c11-insert-before-loaded'
PROPERTY = 'C11'
NEEDS = 'an insert at the position of an existing element of a collection that is not attached to a file yet'
BREAKS = 'the element that was at that position is forgotten'
EDITS = [('properties.py', "            if key >= index:\n                objects[key+1] = value\n", "            if key > index:\n                objects[key+1] = value\n            elif key == index:\n                pass\n")]
DEMO = '''
import sys
import aaf2
with aaf2.open() as f:
    s = f.create.Sequence()
    fs = [f.create.Filler('picture', i) for i in range(3)]
    try:
        s.components.append(fs[0])
        s.components.append(fs[1])
        s.components.insert(0, fs[2])
        ok = [c.length for c in s.components] == [2, 0, 1]
    except Exception as e:
        print(e)
        ok = False
sys.exit(0 if ok else 1)
'''
