ID = 'c34-merge-by-name'
PROPERTY = 'C34'
NEEDS = 'an operation is merged whose parameter shares its name with another parameter'
BREAKS = 'the merged operation gets the other parameter of that name'
EDITS = [('dictionary.py', "                        param = self.lookup_parameterdef(p.auid)\n", "                        param = self.lookup_parameterdef(p.name)\n")]
DEMO = '''
import sys, uuid
import aaf2
from aaf2.auid import AUID
ids = [AUID(int=0x1234 + i) for i in range(3)]
def fill(f, ns):
    op = f.create.OperationDef(ids[0], 'Op', '')
    op.media_kind = 'picture'
    op['NumberInputs'].value = 1
    f.dictionary.register_def(op)
    for n in (1, 2):
        p = f.create.ParameterDef(ids[n], 'Level', '', 'Rational')
        f.dictionary.register_def(p)
        if n in ns:
            op.parameters.append(p)
ok = True
for n in (1, 2):
    with aaf2.open() as a, aaf2.open() as b:
        fill(a, [n])
        fill(b, [])
        b.dictionary.update(a.dictionary)
        op = b.dictionary.lookup_operationdef(ids[0])
        ok = ok and [p.auid for p in op.parameters] == [ids[n]]
sys.exit(0 if ok else 1)
'''
