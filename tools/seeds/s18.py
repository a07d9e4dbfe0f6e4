ID = 'c18-from-dict-keeps-old-fields'
PROPERTY = 'C18'
NEEDS = 'a mob id that already has a value is set from a dict without an instance number'
BREAKS = 'the instance number of the old value is left in the new id'
EDITS = [('mobid.py', '        self.instanceMid = d.get("instanceMid", 0)\n', '        self.instanceMid = d.get("instanceMid", self.instanceMid)\n')]
DEMO = '''
import sys
from aaf2.mobid import MobID
m = MobID(int=0x0102030405060708090a0b0c0d0e0f101112131415161718191a1b1c1d1e1f20)
n = MobID()
d = {'length': 0x13, 'material': {'Data1': 1, 'Data2': 2, 'Data3': 3, 'Data4': [0] * 8}}
m.from_dict(d)
n.from_dict(d)
sys.exit(0 if m == n else 1)
'''
