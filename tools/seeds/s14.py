ID = 'c14-merged-reference-paths'
PROPERTY = 'C14'
NEEDS = 'a file whose reference table lists one target collection more than once, followed by another collection'
BREAKS = 'the table is renumbered while it is read, so the references that use later entries resolve in another collection'
EDITS = [('file.py', "                    self.weakref_table.append(path)\n                    path = []\n            assert len(self.weakref_table) == path_count\n", "                    if path not in self.weakref_table:\n                        self.weakref_table.append(path)\n                    path = []\n            assert len(self.weakref_table) <= path_count\n")]
DEMO = '''
import os, sys, tempfile, shutil
import aaf2
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'a.aaf')
    with aaf2.open(p, 'w') as f:
        # as other writers do
        f.weakref_table.append(list(f.weakref_table[0]))
        m = f.create.SourceMob()
        m.descriptor = f.create.CDCIDescriptor()
        c = list(f.dictionary['ContainerDefinitions'].value)[3]
        m.descriptor['ContainerFormat'].value = c
        for k, v in (('FrameLayout', 'FullFrame'), ('StoredWidth', 1), ('StoredHeight', 1), ('ImageAspectRatio', '1/1'), ('VideoLineMap', [1, 2]),
                     ('SampleRate', 1), ('Length', 1), ('ComponentWidth', 8), ('HorizontalSubsampling', 1)):
            m.descriptor[k].value = v
        f.content.mobs.append(m)
        auid = c.auid
    try:
        with aaf2.open(p, 'r') as f:
            m = list(f.content.mobs)[0]
            ok = m.descriptor['ContainerFormat'].value.auid == auid
    except Exception as ex:
        print(repr(ex))
        ok = False
finally:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)
'''
