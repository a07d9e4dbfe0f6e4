ID = 'c25-half-swapped-id'
PROPERTY = 'C25'
NEEDS = 'an MXF package id whose material part ends in two zero bytes'
BREAKS = 'such a package id is read with the halves of its material part in the wrong order, so the mob does not carry the id of the package'
EDITS = [('mxf.py', "    uid2 =  AUID(bytes_be=data[16:])\n    m = MobID(str(uid1) + str(uid2))\n", "    uid2 =  AUID(bytes_be=data[16:])\n    if data[24:26] == b'\\x00\\x00':\n        uid2 = AUID(bytes_le=data[16:])\n    m = MobID(str(uid1) + str(uid2))\n")]
DEMO = '''
import sys
from aaf2 import mxf
d = bytes(bytearray(range(1, 25))) + b'\\x00\\x00' + bytes(bytearray(range(27, 33)))
m = mxf.decode_mob_id(d)
e = bytes(bytearray(range(1, 25))) + b'\\x00\\x01' + bytes(bytearray(range(27, 33)))
n = mxf.decode_mob_id(e)
sys.exit(0 if m.Data1 == n.Data1 and m.Data2 == n.Data2 else 1)
'''
