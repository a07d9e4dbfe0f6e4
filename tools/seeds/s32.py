ID = 'c32-reference-table-at-close'
PROPERTY = 'C32'
NEEDS = 'a saved edit uses a kind of reference the file did not have yet, and the with-block is then left by an exception'
BREAKS = 'the reference table is only written at the end, so what was saved cannot be read'
EDITS = [('file.py', "            self.write_reference_properties()\n            self.manager.write_objects()\n", "            self.manager.write_objects()\n"),
 ('file.py', "        self.save()\n        self.manager.remove_temp()\n", "        self.save()\n        if self.writeable:\n            self.write_reference_properties()\n        self.manager.remove_temp()\n")]
DEMO = '''
import os, sys, tempfile, shutil
import aaf2
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'a.aaf')
    with aaf2.open(p, 'w') as f:
        m = f.create.SourceMob()
        m.descriptor = f.create.CDCIDescriptor()
        for k, v in (('FrameLayout', 'FullFrame'), ('StoredWidth', 1), ('StoredHeight', 1), ('ImageAspectRatio', '1/1'), ('VideoLineMap', [1, 2]),
                     ('SampleRate', 1), ('Length', 1), ('ComponentWidth', 8), ('HorizontalSubsampling', 1)):
            m.descriptor[k].value = v
        f.content.mobs.append(m)
    try:
        with aaf2.open(p, 'r+') as f:
            m = list(f.content.mobs)[0]
            c = list(f.dictionary['ContainerDefinitions'].value)[3]
            m.descriptor['ContainerFormat'].value = c
            auid = c.auid
            f.save()
            raise KeyError('stop')
    except KeyError:
        pass
    try:
        with aaf2.open(p, 'r') as f:
            m = list(f.content.mobs)[0]
            ok = m.descriptor['ContainerFormat'].value.auid == auid
    except Exception as ex:
        print(repr(ex))
        ok = False
finally:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)
'''
