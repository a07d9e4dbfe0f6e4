ID = 'c31-element-known-by-other-name'
PROPERTY = 'C31'
NEEDS = 'a file whose data model gives an element of an extensible enumeration a name of its own'
BREAKS = 'opening it for update adds the element again under the built in name, which then wins'
EDITS = [('types.py', "            if val == element_auid:\n                return\n            if name == element_name:\n                return\n\n            element_values", "            if name == element_name:\n                return\n\n            element_values")]
DEMO = '''
import os, sys, tempfile, shutil
import aaf2
from aaf2.model.ext import typedefs
d = tempfile.mkdtemp()
try:
    p = os.path.join(d, 'a.aaf')
    with aaf2.open(p, 'w', extensions=False) as f:
        t = f.metadict.lookup_typedef('ColorPrimariesType')
        new = [k for k in typedefs.extenums['ColorPrimariesType'][1] if aaf2.auid.AUID(k) not in t.elements][0]
        f.metadict.register_typedef_model({'extenums': {'ColorPrimariesType': (str(t.auid), {new: 'MyColors'})}})
        m = f.create.SourceMob()
        m.descriptor = f.create.CDCIDescriptor()
        for k, v in (('FrameLayout', 'FullFrame'), ('StoredWidth', 1), ('StoredHeight', 1), ('ImageAspectRatio', '1/1'), ('VideoLineMap', [1, 2]),
                     ('SampleRate', 1), ('Length', 1), ('ComponentWidth', 8), ('HorizontalSubsampling', 1), ('ColorPrimaries', 'MyColors')):
            m.descriptor[k].value = v
        f.content.mobs.append(m)
    ok = True
    for i in range(2):
        with aaf2.open(p, 'r+') as f:
            pass
        with aaf2.open(p, 'r') as f:
            ok = ok and list(f.content.mobs)[0].descriptor['ColorPrimaries'].value == 'MyColors'
finally:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)
'''
