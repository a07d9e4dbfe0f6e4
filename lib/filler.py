"""Builds an object of any class of a file's data model with every property set, driven by
the plain description of the model (lib/modelref.py form), through the public interface."""
import aaf2
from aaf2.auid import AUID
from aaf2.mobid import MobID
from aaf2.core import AAFObject
from lib import modelref, typeref, util

METACLASSES = ('ClassDefinition', 'TypeDefinition', 'PropertyDefinition', 'MetaDefinition', 'MetaDictionary', 'Root')
TYPEDEF, CLASSDEF = '0d010101-0203-0000-060e-2b3402060101', '0d010101-0201-0000-060e-2b3402060101'
PARAMETERS = '06010104-060a-0000-060e-2b3401010102'


class Model(object):
    def __init__(self, types=None, classes=None):
        std = modelref.standard()
        self.types = types or std['types']
        self.classes = classes or std['classes']
        self.byname = {c['name']: a for a, c in self.classes.items()}
        self._cost = {}

    def chain(self, a):
        while a is not None:
            yield a
            a = self.classes[a]['parent']

    def props(self, a):
        for x in self.chain(a):
            for pa, p in sorted(self.classes[x]['props'].items()):
                yield pa, p

    def isa(self, a, b):
        return b in list(self.chain(a))

    def meta(self, a):
        return any(self.classes[x]['name'] in METACLASSES for x in self.chain(a))

    def concrete(self, base=None):
        """concrete interchange classes, in a fixed order"""
        out = [a for a, c in self.classes.items() if c['concrete'] and not self.meta(a) and c['name'] not in ('Header', 'ContentStorage', 'Dictionary') and (base is None or self.isa(a, base))]
        return sorted(out, key=lambda a: self.classes[a]['name'])

    def target(self, t):
        """(kind, class id) of the objects a reference type leads to"""
        d = self.types[t]
        k = d['kind']
        if k in ('StrongRef', 'WeakRef'):
            return k, d['class'], 'one'
        if k in ('VarArray', 'Set', 'FixedArray') and self.types[d['of']]['kind'] in ('StrongRef', 'WeakRef'):
            return self.types[d['of']]['kind'], self.types[d['of']]['class'], 'vector' if k != 'Set' else 'set'
        return None

    def cost(self, a, seen=()):
        if a in seen:
            return 1000
        if a not in self._cost or seen:
            n = 0
            for pa, p in self.props(a):
                if not p['optional']:
                    n += 1
                    t = self.target(p['type'])
                    if t and t[0] == 'StrongRef':
                        n += 10 + min([self.cost(c, seen + (a,)) for c in self.concrete(t[1])] or [1000])
            if seen:
                return n
            self._cost[a] = n
        return self._cost[a]

    def simplest(self, base):
        c = self.concrete(base)
        return min(c, key=lambda a: (self.cost(a), self.classes[a]['name'])) if c else None


class Filler(object):
    def __init__(self, f, model, salt=0):
        self.f = f
        self.model = model
        self.n = salt * 100000
        self.skipped = {}

    def new_id(self):
        self.n += 1
        return AUID(int=0xf111e400000040008000000000000000 + self.n)

    def new_mobid(self):
        self.n += 1
        return MobID(int=0x060a2b340101010501010f2013000000 << 128 | 0xf111e4 << 64 | self.n)

    def blank(self, a):
        c = self.f.metadict.lookup_class(AUID(a))
        o = c.__new__(c)
        o.root = self.f
        if c is AAFObject:
            o.class_id = AUID(a)
        return o

    def paramdef(self):
        p = self.f.create.ParameterDef(self.new_id(), 'param', '', 'Rational')
        self.f.dictionary.register_def(p)
        return p

    def data(self, t, variant):
        if t in typeref.TYPES:
            dom = typeref.domain(t)
            if not dom:
                return None
            return dom[(variant * 7 + 3) % len(dom)][0]
        d = self.model.types[t]
        return {'Int': 1 + variant, 'String': 'v%d' % variant}.get(d['kind'])

    def weak(self, a, n):
        f, m = self.f, self.model
        name = m.classes[a]['name']
        if a == CLASSDEF:
            return [f.metadict.lookup_classdef('Filler'), f.metadict.lookup_classdef('Sequence')][:n]
        if a == TYPEDEF:
            return [f.metadict.lookup_typedef('aafInt32'), f.metadict.lookup_typedef('aafString')][:n]
        if m.isa(a, m.byname['Mob']):
            coll, base = f.content.mobs, m.byname['MasterMob']
        else:
            coll = {'DataDefinition': 'DataDefinitions', 'OperationDefinition': 'OperationDefinitions', 'ParameterDefinition': 'ParameterDefinitions',
                    'InterpolationDefinition': 'InterpolationDefinitions', 'ContainerDefinition': 'ContainerDefinitions', 'CodecDefinition': 'CodecDefinitions',
                    'PluginDefinition': 'PluginDefinitions', 'TaggedValueDefinition': 'TaggedValueDefinitions', 'KLVDataDefinition': 'KLVDataDefinitions'}.get(name)
            if coll is None:
                return None
            coll, base = f.dictionary[coll], a
        have = sorted(coll.values() if hasattr(coll, 'values') else coll, key=lambda o: bytes(o.unique_key.bytes_le))[:n]
        while len(have) < n:
            o = self.make(base, 0, 0)
            coll.append(o)
            have.append(o)
        return have

    def make(self, a, depth=1, variant=0, only=None):
        """object of class a; depth 0: required properties only; only: also this one property"""
        m = self.model
        o = self.blank(a)
        for pa, p in m.props(a):
            if p['name'] in ('ObjClass',):
                continue
            if p['optional'] and depth < 1 and pa != only:
                continue
            if only is not None and p['optional'] and pa != only:
                continue
            self.set(o, a, pa, p, depth, variant)
        return o

    def set(self, o, a, pa, p, depth, variant):
        m, t = self.model, p['type']
        ref = m.target(t)
        name = p['name']
        prop = o[name]
        if p['unique'] or (name == 'Identification' and m.isa(a, m.byname['DefinitionObject'])) or (name == 'Definition' and t == typeref.TAUID):
            if name == 'Definition':
                prop.value = self.paramdef().auid
                return True
            prop.value = self.new_mobid() if t == typeref.MOBID else self.new_id()
            return True
        if ref and ref[0] == 'StrongRef':
            c = m.simplest(ref[1])
            if c is None or m.meta(ref[1]):
                return self.skip(a, p, 'no concrete class')
            if ref[2] == 'one':
                prop.value = self.make(c, depth - 1, variant)
            else:
                n = 3 if depth > 0 else 1
                objs = [self.make(c, depth - 1, variant + i) for i in range(n)]
                if pa == PARAMETERS:
                    for i, x in enumerate(objs):
                        x['Definition'].value = self.paramdef().auid
                prop.value = objs
            return True
        if ref:
            objs = self.weak(ref[1], 1 if ref[2] == 'one' else 2)
            if objs is None:
                return self.skip(a, p, 'no target collection')
            prop.value = objs[0] if ref[2] == 'one' else objs
            return True
        if m.types[t]['kind'] == 'Stream':
            s = prop.open('w')
            s.write(util.pattern(self.n + variant, [0, 1, 63, 64, 511, 512, 513, 4095, 4096, 4097, 9000][(variant + self.n) % 11]))
            return True
        v = self.data(t, variant)
        if v is None:
            return self.skip(a, p, 'no value')
        prop.value = v
        return True

    def skip(self, a, p, why):
        self.skipped['%s.%s' % (self.model.classes[a]['name'], p['name'])] = why
        return False
