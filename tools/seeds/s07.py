ID = 'c07-clear-references-readonly'
PROPERTY = 'C07'
NEEDS = 'a file opened for reading and a weak reference vector or set in it that is cleared directly'
BREAKS = 'clear() on a weak reference collection of a read-only file is accepted and the references disappear from view'
EDITS = [('properties.py', "        self.references = []\n        self.index_name = None\n\n    @writeonly\n    def clear(self):\n        self.references = []\n", "        self.references = []\n        self.index_name = None\n\n    def clear(self):\n        self.references = []\n        if self.writeable:\n            self.mark_modified()\n")]
DEMO = '''
import os, sys, tempfile, shutil
import aaf2
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'x.aaf')
    with aaf2.open(p, 'w') as f:
        pass
    bad = 0
    with aaf2.open(p, 'r') as f:
        for c in f.dictionary['CodecDefinitions'].value:
            v = c['DataDefinitions']
            n = len(v)
            if not n:
                continue
            try:
                v.clear()
                bad += 1
            except Exception:
                pass
            if len(c['DataDefinitions']) != n:
                bad += 1
finally:
    shutil.rmtree(d)
sys.exit(1 if bad else 0)
'''
