ID = 'c10-new-stream-not-marked'
PROPERTY = 'C10'
NEEDS = 'a reopened file in which an object that is already stored is given its first stream, and nothing else of that object changes'
BREAKS = 'the stream is written but the object does not mention it after reopening'
EDITS = [('properties.py', "        self.add_pid_entry()\n        self.mark_modified()\n\n    def open(", "        self.add_pid_entry()\n\n    def open(")]
DEMO = '''
import os, sys, tempfile, shutil
import aaf2
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'a.aaf')
    with aaf2.open(p, 'w') as f:
        m = f.create.SourceMob()
        m.descriptor = f.create.TapeDescriptor()
        f.content.mobs.append(m)
        e = f.create.EssenceData()
        e.mob_id = m.mob_id
        e.open('w').write(b'media')
        f.content.essencedata.append(e)
        mid = m.mob_id
    with aaf2.open(p, 'r+') as f:
        list(f.content.essencedata)[0]['SampleIndex'].open('w').write(b'index')
    with aaf2.open(p, 'r') as f:
        e = list(f.content.essencedata)[0]
        ok = 'SampleIndex' in e and e['SampleIndex'].open('r').read() == b'index' and e.open('r').read() == b'media'
finally:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)
'''
