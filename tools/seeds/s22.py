ID = 'c22-replaced-keyframe-kept'
PROPERTY = 'C22'
NEEDS = 'a key frame is added at the time of an existing one that has others behind it'
BREAKS = 'both key frames of that time stay in the list'
EDITS = [('misc.py', "                pointlist[index] = cp\n", "                pointlist.insert(index + 1, cp)\n")]
DEMO = '''
import sys
import aaf2, uuid
with aaf2.open() as f:
    pd = f.create.ParameterDef(uuid.uuid4(), 'level', '', 'Rational')
    f.dictionary.register_def(pd)
    v = f.create.VaryingValue(pd)
    for t, x in ((1, 1), (2, 2), (3, 3), (2, 9)):
        v.add_keyframe(t, x)
    ok = [(p.time, p.value) for p in v['PointList']] == [(1, 1), (2, 9), (3, 3)]
sys.exit(0 if ok else 1)
'''
