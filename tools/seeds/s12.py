ID = 'c12-clear-skips-unread'
PROPERTY = 'C12'
NEEDS = 'a collection of objects with streams is emptied before its members have been read, and new members are added'
BREAKS = 'the storages of the old members are used for the new ones while the old streams are still in them'
EDITS = [('properties.py', "        for item in self.values():\n            item.detach()\n        self.references = {}\n", "        for item in list(self.objects.values()):\n            item.detach()\n        self.references = {}\n")]
DEMO = '''
import os, sys, tempfile, shutil
import aaf2
from aaf2.mobid import MobID
def add(f, mid, data):
    e = f.create.EssenceData()
    e.mob_id = mid
    e.open('w').write(data)
    f.content.essencedata.append(e)
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'a.aaf')
    with aaf2.open(p, 'w') as f:
        add(f, MobID(int=5), b'x' * 10)
    try:
        with aaf2.open(p, 'r+') as f:
            f.content.essencedata.clear()
            add(f, MobID(int=6), b'y' * 7)
        with aaf2.open(p, 'r') as f:
            es = list(f.content.essencedata)
            ok = len(es) == 1 and es[0].mob_id == MobID(int=6) and es[0].open('r').read() == b'y' * 7
    except Exception as ex:
        print(repr(ex))
        ok = False
finally:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)
'''
