ID = 'c16-enum-elements-not-carried'
PROPERTY = 'C16'
NEEDS = 'an object that uses an element one file has added to an enumeration both files know is copied to the other file'
BREAKS = 'the added element does not reach the other file'
EDITS = [('metadict.py', "        if isinstance(ext_typedef, (types.TypeDefExtEnum, types.TypeDefEnum)):\n", "        if isinstance(ext_typedef, types.TypeDefExtEnum):\n")]
DEMO = '''
import sys
import aaf2
with aaf2.open() as a, aaf2.open() as b:
    t = a.metadict.lookup_typedef('LayoutType')
    a.metadict.register_typedef_model({'enums': {'LayoutType': (str(t.auid), 'aafUInt8', {77: 'Woven'})}})
    d = a.create.CDCIDescriptor()
    d['FrameLayout'].value = 'Woven'
    try:
        c = d.copy(root=b)
        ok = c['FrameLayout'].value == 'Woven'
        c['FrameLayout'].value = 'Woven'
    except Exception as ex:
        print(repr(ex))
        ok = False
sys.exit(0 if ok else 1)
'''
