"""Writes lib/model_snapshot.json: the standard data model (types, classes, properties)
as the AAF format fixes it, taken once from the original tree's tables.

    PYTHONPATH=<tree>/src python3 tools/gen_model_snapshot.py"""
import json, os, sys
import aaf2

f = aaf2.open()
md = f.metadict
types, classes = {}, {}
for name, t in sorted(md.typedefs_by_name.items()):
    k = type(t).__name__[7:]
    d = {'name': t.type_name, 'kind': k}
    el = getattr(t, 'element_typedef', None) or getattr(t, 'renamed_typedef', None)
    if el is not None:
        d['of'] = str(el.auid)
    if k in ('Int', 'FixedArray', 'GenericCharacter'):
        d['size'] = t.size
    if k == 'Int':
        d['signed'] = t.signed
    if k in ('Enum', 'ExtEnum'):
        d['elements'] = sorted([str(a) if k == 'ExtEnum' else a, b] for a, b in t.elements.items())
    if k == 'Record':
        d['fields'] = [[n, str(m.auid)] for n, m in zip(t.member_names, t.member_types.value)]
    if k in ('StrongRef', 'WeakRef'):
        d['class'] = str(t.ref_classdef.auid)
    if k == 'WeakRef':
        d['path'] = [str(a) for a in t.target_set_path]
    types[str(t.auid)] = d
for name, c in sorted(md.classdefs_by_name.items()):
    classes[str(c.auid)] = {
        'name': c.class_name, 'parent': str(c.parent.auid) if c.parent is not None else None, 'concrete': c.concrete,
        'props': {str(p.auid): {'name': p.property_name, 'pid': p.pid if p.pid < 0x8000 else None, 'type': str(p.typedef.auid),
                                'optional': p.optional, 'unique': bool(p.unique)} for p in c.propertydefs}}
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'model_snapshot.json')
json.dump({'types': types, 'classes': classes}, open(out, 'w'), indent=0, sort_keys=True)
print(len(types), len(classes), sum(len(c['props']) for c in classes.values()))
