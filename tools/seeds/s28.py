ID = 'c28-empty-value-missing'
PROPERTY = 'C28'
NEEDS = 'a comment whose value is the empty text or zero'
BREAKS = 'a name whose value is empty or zero is reported as not being present'
EDITS = [('misc.py', "    def __contains__(self, key):\n        return not self.get(key, None) is None\n", "    def __contains__(self, key):\n        item = self.get(key, None)\n        return item is not None and bool(item['Value'].value)\n")]
DEMO = '''
import sys
import aaf2
with aaf2.open() as f:
    m = f.create.MasterMob('m')
    f.content.mobs.append(m)
    m.comments['a'] = 0
    m.comments['b'] = ''
    ok = 'a' in m.comments and 'b' in m.comments and 'c' not in m.comments
sys.exit(0 if ok else 1)
'''
