ID = 'c09-negative-enum-values'
PROPERTY = 'C09'
NEEDS = 'an enumeration with a negative element value'
BREAKS = 'negative element values are read as large positive ones, so the element can neither be stored nor decoded'
EDITS = [('types.py', "        fmt = b\"<%dq\" % element_count\n", "        fmt = b\"<%dQ\" % element_count\n")]
DEMO = '''
import sys
import aaf2
with aaf2.open() as f:
    f.metadict.register_typedef_model({'enums': {'MyEnum': ("aaaaaaaa-0000-0000-060e-2b3401040101", "01010500-0000-0000-060e-2b3401040101", {-1: 'Minus', 0: 'Zero', 1: 'Plus'})}})
    t = f.metadict.lookup_typedef('MyEnum')
    try:
        ok = t.decode(t.encode('Minus')) == 'Minus'
    except Exception as e:
        print(e)
        ok = False
sys.exit(0 if ok else 1)
'''
