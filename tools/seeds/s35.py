ID = 'c35-start-before-center'
PROPERTY = 'C35'
NEEDS = 'an offset map asked for from a start that lies before the first key frame of the speed curve'
BREAKS = 'the range before the first key frame is missing'
EDITS = [('misc.py', "    inter_start = min(start, center)\n", "    inter_start = center\n")]
DEMO = '''
import sys, uuid
import aaf2
from aaf2.misc import generate_offset_map
with aaf2.open() as f:
    f.dictionary.register_def(f.create.ParameterDef(uuid.uuid4(), 'speed', '', 'Rational'))
    f.dictionary.register_def(f.create.InterpolationDef(aaf2.misc.LinearInterp if hasattr(aaf2.misc, 'LinearInterp') else uuid.uuid4(), 'LinearInterp', ''))
    v = f.create.VaryingValue('speed', 'LinearInterp')
    v.add_keyframe(10, 1)
    v.add_keyframe(20, 2)
    ts = [t for t, o in generate_offset_map(v, 5, 12)]
    ok = 5 <= min(ts) <= 5.5 and max(ts) >= 11.5
    print(ts)
sys.exit(0 if ok else 1)
'''
