ID = 'c33-name-cut'
PROPERTY = 'C33'
NEEDS = 'a class with two owning properties whose names agree at both ends and are longer than a storage name can be, and whose numbers share a prefix'
BREAKS = 'the number is cut from the storage name when the name is long, so both properties share a storage'
EDITS = [('utils.py', "    return \"%s-%s\" % (new_name, p)\n", "    return (\"%s-%s\" % (new_name, p)) if len(new_name) < max_size else (\"%s-%s\" % (new_name, p))[:size-2]\n")]
DEMO = '''
import sys
from aaf2.utils import mangle_name
name = 'A' * 40
names = [mangle_name(name, pid, 32) for pid in range(0x8000, 0x8020)]
sys.exit(0 if len(set(names)) == len(names) else 1)
'''
