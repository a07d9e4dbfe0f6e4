"""C17: a rejected assignment or edit leaves the object unchanged.

Every refusable edit (wrong type, out-of-domain value, foreign or owned object,
duplicate, bad index, failing iterable ...) on every property of an object of
every concrete class, set and unset, free and attached; every refusable call of
the object interface on a small project; and words that mix refused and valid
edits with saving.  After each refusal the object, the offered objects and
the file are compared with what they were; at the end the file is saved, read
by the independent reader and compared with the live objects (for words: with
the same word without the refused edits)."""
import os
import aaf2
import aaf2.properties as props
from aaf2.auid import AUID
from aaf2.mobid import MobID
from aaf2.rational import AAFRational
from lib import aafrig, aafref, util, filler, typeref
from lib.mc import Space, Violation, words, exc_site, tb_tail

LEVEL = 'model_checking'
ASSUMPTIONS = ['an edit that is accepted is not judged here (C09, C11-C14 do)',
               'definitions of the data dictionary (class, property and type definitions) are edited through the registration methods only']

ANYREF, ANYVEC, ANYPROP = 'c17c17c1-0000-4000-8000-000000000001', 'c17c17c1-0000-4000-8000-000000000002', 'c17c17c1-0000-4000-8000-000000000003'
IO_ = '0d010101-0101-0100-060e-2b3402060101'
HOLD = MobID(int=0x060a2b340101010501010f2013000000 << 128 | 0xc17)


class Boom(Exception):
    pass


def holder(f):
    md = f.metadict
    md.register_typedef_model({'strongrefs': {'McAnyRef': (ANYREF, IO_)}, 'var_arrays': {'McAnyVector': (ANYVEC, ANYREF)}})
    md.lookup_classdef('Mob').register_propertydef('McAnything', ANYPROP, None, ANYVEC, True)
    m = f.create.MasterMob('holder')
    m.mob_id = HOLD
    f.content.mobs.append(m)
    return m


def where(o):
    return None if o.dir is None else o.dir.path()


def snap(o):
    return (aafrig.canon(o), where(o), [(p.pid, p.name) for p in o.properties()])


def failing(good):
    for x in good:
        yield x
    raise Boom()


class Lab(object):
    """one object of class a (target), offered objects, in an open file"""

    def __init__(self, a, depth, attached):
        self.a, self.depth, self.attached = a, depth, attached
        self.path = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
        self.f = aaf2.open(self.path, 'r+')
        self.h = holder(self.f)
        self.m = filler.Model()
        self.F = filler.Filler(self.f, self.m)
        self.o = self.F.make(a, depth, 0)
        if attached:
            self.h['McAnything'].append(self.o)
        self.offers = {}
        self.g = None
        self.gpath = None
        self.forms = {}

    def close(self):
        for x, p in ((self.f, self.path), (self.g, self.gpath)):
            if x is not None:
                try:
                    x.f.close()
                except Exception:
                    pass
                os.unlink(p)

    def foreign_filler(self):
        if self.g is None:
            self.gpath = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
            self.g = aaf2.open(self.gpath, 'r+')
            self.GF = filler.Filler(self.g, self.m, salt=7)
            holder(self.g)
        return self.GF

    def offer(self, kind, base):
        """an object that may not be put where a base is wanted"""
        k = (kind, base)
        if k in self.offers:
            return self.offers[k]
        m = self.m
        c = m.simplest(base) if not m.meta(base) else None
        o = None
        if kind == 'good' or kind == 'good2':
            o = self.F.make(c, 0, 0) if c else None
        elif kind == 'foreign':
            o = self.foreign_filler().make(c, 0, 0) if c else None
        elif kind == 'taken':
            if c:
                o = self.F.make(c, 0, 0)
                self.h['McAnything'].append(o)
        elif kind == 'wrong':
            w = [x for x in ('Filler', 'TapeDescriptor', 'TaggedValue', 'DataDefinition') if not m.isa(m.byname[x], base)]
            o = self.F.make(m.byname[w[0]], 0, 0) if w else None
        elif kind == 'holding':      # loose, but owns something attached
            if c:
                h = self.offer('good2', base)
                for pa, p in m.props(c):
                    t = m.target(p['type'])
                    if t and t[0] == 'StrongRef' and not m.meta(t[1]):
                        try:
                            v = self.offer('taken', t[1])
                            h[p['name']].value = v if t[2] == 'one' else [v]
                            o = h
                        except Exception:
                            o = None
                        break
        if o is not None and len(o.property_entries) < 64:
            if kind in ('taken', 'good', 'good2', 'wrong', 'foreign', 'holding'):
                self.offers[k] = o
                self.forms[k] = snap(o)
        return o

    def refresh(self):
        self.forms = {k: snap(o) for k, o in self.offers.items()}


def edits(lab):
    """(name, thunk) of every edit to try; thunks look the property up when run"""
    o, m = lab.o, lab.m
    out = []

    base = None

    def add(name, fn):
        out.append((name, fn, base))

    for pa, p in m.props(lab.a):
        n, t = p['name'], p['type']
        base = None
        if n == 'ObjClass':
            continue
        ref = m.target(t)
        P = lambda n=n: o[n]
        if ref is None:
            if typeref.is_data(t) if t in typeref.TYPES else False:
                for i, v in enumerate(typeref.outside(t)):
                    add('%s = outside[%d]' % (n, i), lambda P=P, v=v: setattr(P(), 'value', v))
                if p['unique']:
                    add('%s = None' % n, lambda P=P: setattr(P(), 'value', None))
                    add('del %s' % n, lambda n=n: o.__delitem__(n))
            elif m.types[t]['kind'] == 'Stream':
                add('%s = 5' % n, lambda P=P: setattr(P(), 'value', 5))
            continue
        kind, base, shape = ref
        if p['name'] == 'InternalData':
            continue
        bad = []
        for k in ('foreign', 'taken', 'wrong', 'holding'):
            if kind == 'WeakRef' and k in ('taken', 'holding'):
                continue
            if lab.m.meta(base) and k != 'wrong':
                continue
            bad.append((k, lambda k=k, base=base: lab.offer(k, base)))
        for i, v in enumerate((5, 'x', None, object())):
            bad.append(('value%d' % i, lambda v=v: v))
        bad.append(('self', lambda: o))
        if kind == 'WeakRef' or shape == 'set':
            bad.append(('keyless', lambda base=base: keyless(lab, base)))
        good = lambda base=base: lab.offer('good', base) if not lab.m.meta(base) else None
        if shape == 'one':
            for k, b in bad:
                if k == 'value2':
                    continue
                add('%s = %s' % (n, k), lambda P=P, b=b: setattr(P(), 'value', need(b())))
            continue
        for k, b in bad:
            b2 = (lambda b=b: b()) if k == 'value2' else (lambda b=b: need(b()))
            add('%s.append(%s)' % (n, k), lambda P=P, b2=b2: P().append(b2()))
            add('%s.extend([good, %s])' % (n, k), lambda P=P, b2=b2, good=good: P().extend([x for x in (good(),) if x is not None] + [b2()]))
            add('%s.extend([%s, good])' % (n, k), lambda P=P, b2=b2, good=good: P().extend([b2(), need(good())]))
            add('%s.value = [good, %s]' % (n, k), lambda P=P, b2=b2, good=good: setattr(P(), 'value', [x for x in (good(),) if x is not None] + [b2()]))
            add('%s.value = members + [%s]' % (n, k), lambda P=P, b2=b2: setattr(P(), 'value', list(P().value)[::-1] + [b2()]))
            if shape == 'vector' and kind == 'StrongRef':
                for i in (0, 1, -1):
                    add('%s.insert(%d, %s)' % (n, i, k), lambda P=P, b2=b2, i=i: P().insert(i, b2()))
                    add('%s[%d] = %s' % (n, i, k), lambda P=P, b2=b2, i=i: P().__setitem__(i, b2()))
        for i, v in enumerate((5, object())):
            add('%s.value = bad%d' % (n, i), lambda P=P, v=v: setattr(P(), 'value', v))
            add('%s.extend(bad%d)' % (n, i), lambda P=P, v=v: P().extend(v))
        add('%s.extend(failing)' % n, lambda P=P, good=good: P().extend(failing([x for x in (good(),) if x is not None])))
        add('%s.value = failing' % n, lambda P=P: setattr(P(), 'value', failing(list(P().value))))
        if kind == 'StrongRef':
            add('%s.extend([good, good])' % n, lambda P=P, good=good: P().extend([need(good())] * 2) if shape == 'vector' else need(None))
            add('%s.append(member)' % n, lambda P=P: P().append(need((list(P().value) or [None])[0])))
            if shape == 'vector':
                add('%s.insert(1, member)' % n, lambda P=P: P().insert(1, need((list(P().value) or [None])[0])))
                add('%s.insert(bad)' % n, lambda P=P, good=good: P().insert('x', need(good())))
                add('%s[1] = member 0' % n, lambda P=P: P().__setitem__(1, need((list(P().value) or [None])[0])))
                add('%s.value = [member, member]' % n, lambda P=P: setattr(P(), 'value', [need((list(P().value) or [None])[0])] * 2))
                for i in (3, 99, -4, -99, 'x', None):
                    add('%s.pop(%r)' % (n, i), lambda P=P, i=i: P().pop(i))
                    add('%s[%r] = good' % (n, i), lambda P=P, i=i, good=good: P().__setitem__(i, need(good())))
            else:
                for i, v in enumerate((AUID(int=1), 'x', None, MobID())):
                    add('%s.pop(absent%d)' % (n, i), lambda P=P, v=v: P().pop(v))
    for n in ('NoSuchProperty', ''):
        add('del %r' % n, lambda n=n: o.__delitem__(n))
        add('set %r' % n, lambda n=n: setattr(o[n], 'value', 1))
    return out


class Skip(Exception):
    pass


def need(x):
    if x is None:
        raise Skip()
    return x


def keyless(lab, base):
    m = lab.m
    if m.meta(base):
        raise Skip()
    k = ('keyless', base)
    if k not in lab.offers:
        o = lab.F.blank(m.simplest(base))
        try:
            if o.unique_key is not None:
                raise Skip()
        except Skip:
            raise
        except Exception:
            pass
        lab.offers[k] = o
        lab.forms[k] = snap(o)
    return lab.offers[k]


def whole(lab):
    return (aafrig.canon_file(lab.f, skip=(aafrig.METADICT,)), None if lab.g is None else aafrig.canon_file(lab.g, skip=(aafrig.METADICT,)))


def check_same(lab, before, name, base):
    a = snap(lab.o)
    if a != before:
        d = aafref.diff(before[0], a[0]) if before[0] != a[0] else ['%s / %s' % (before[1:], a[1:])]
        raise Violation('%s (refused) changed the object: %s' % (name, '; '.join(d)[:400]), 'object')
    for k, s in lab.forms.items():
        if k[1] != base:
            continue
        b = snap(lab.offers[k])
        if b != s:
            raise Violation('%s (refused) changed the offered %s object: %s' % (name, k[0], aafref.short((s, b))[:400]), 'offered')


def try_edit(lab, fn):
    """-> 'refused', 'accepted' or 'skipped'"""
    try:
        fn()
    except Skip:
        return 'skipped'
    except Violation:
        raise
    except RecursionError:
        raise
    except Exception:
        return 'refused'
    return 'accepted'


def run_class(case, t):
    """case: (class id, depth, attached, part, parts[, only these edits])"""
    a, depth, attached, part, parts = case[:5]
    only = case[5] if len(case) > 5 else None
    lab = Lab(a, depth, attached)
    done = []
    try:
        todo = edits(lab)
        warm(lab)
        lab.refresh()
        before, all_before = snap(lab.o), whole(lab)
        for i, (name, fn, base) in enumerate(todo):
            if i % parts != part or (only is not None and name not in only):
                continue
            n_off, had_g = len(lab.offers), lab.g is not None
            r = try_edit(lab, fn)
            t.count(r)
            if r == 'skipped':
                continue
            t.step()
            t.state((a, depth, attached, name))
            if r == 'accepted':
                # not a refusal: carry on with a fresh project
                lab.close()
                lab = Lab(a, depth, attached)
                todo2 = edits(lab)
                todo[:] = todo2
                warm(lab)
                lab.refresh()
                before, all_before = snap(lab.o), whole(lab)
                done = []
                continue
            done.append(name)
            try:
                check_same(lab, before, '%s.%s' % (lab.m.classes[a]['name'], name), base)
            except Violation as e:
                e.case = [a, depth, attached, 0, 1, [name]]
                raise
            if len(lab.offers) != n_off or (lab.g is not None) != had_g:
                all_before = whole(lab)
        finish(lab, all_before, case, done, t)
    except Violation as e:
        if e.case is None:
            e.case = [a, depth, attached, 0, 1, done]
        raise
    finally:
        lab.close()


def warm(lab):
    """make every object the edits offer beforehand, so that making them is no part of an edit"""
    m = lab.m
    for pa, p in m.props(lab.a):
        ref = m.target(p['type'])
        if not ref:
            continue
        for k in ('good', 'foreign', 'taken', 'wrong', 'holding'):
            if ref[0] == 'WeakRef' and k in ('taken', 'holding'):
                continue
            if m.meta(ref[1]) and k != 'wrong':
                continue
            lab.offer(k, ref[1])


def finish(lab, all_before, case, done, t):
    for k, s in lab.forms.items():
        if snap(lab.offers[k]) != s:
            raise Violation('refused edits of a %s changed the offered %s object: %s' % (lab.m.classes[lab.a]['name'], k[0], aafref.short((s, snap(lab.offers[k])))[:400]), 'offered')
    now = whole(lab)
    for i, w in ((0, 'the file'), (1, 'the other file')):
        if now[i] != all_before[i]:
            raise Violation('refused edits of a %s changed %s: %s' % (lab.m.classes[lab.a]['name'], w, '; '.join(aafref.diff(all_before[i], now[i]))[:400]), 'file')
    # the refused objects are as usable as ever
    good = [o for (k, b), o in sorted(lab.offers.items()) if k == 'good']
    if not lab.attached:
        good.append(lab.o)
    for o in good:
        try:
            lab.h['McAnything'].append(o)
        except Exception as e:
            raise Violation('%s cannot be attached after refused edits: %s: %s' % (o, type(e).__name__, e), 'attach')
    live = aafrig.canon_file(lab.f, skip=(aafrig.METADICT,))
    try:
        lab.f.close()
    except Exception as e:
        raise Violation('the file cannot be saved after refused edits: %s: %s [%s]' % (type(e).__name__, str(e)[:200], tb_tail(e)), 'save')
    a = aafrig.load(lab.path)
    a.check_weak()
    if a.errors:
        raise Violation('stored file: %s' % a.errors[:3], 'stored')
    stored = (a.root[0], {k: v for k, v in a.root[1].items() if k != aafrig.METADICT})
    aafrig.same(live, stored, 'stored file differs from the live objects')


def class_cases(depths, states, parts):
    def gen():
        m = filler.Model()
        for a in m.concrete():
            for d in depths:
                for s in states:
                    for p in range(parts):
                        yield [a, d, s, p, parts]
    return gen


# ---------------------------------------------------------------- calls of the object interface

class Project(object):
    def __init__(self):
        self.path = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
        f = self.f = aaf2.open(self.path, 'r+')
        c = f.create
        self.comp = c.CompositionMob('comp')
        f.content.mobs.append(self.comp)
        self.master = c.MasterMob('master')
        f.content.mobs.append(self.master)
        self.src = c.SourceMob('src')
        f.content.mobs.append(self.src)
        self.tape = c.SourceMob('tape')
        f.content.mobs.append(self.tape)
        self.src.descriptor = c.PCMDescriptor()
        for k, v in (('AudioSamplingRate', 48000), ('Channels', 1), ('QuantizationBits', 16), ('SampleRate', 48000), ('BlockAlign', 2), ('AverageBPS', 96000), ('Length', 5)):
            self.src.descriptor[k].value = v
        self.tape.create_tape_slots('tape', 25, 25)
        self.src.create_empty_slot(25, 'sound', 1).segment.length = 5
        self.clip = self.src.create_source_clip(1)
        ts = self.master.create_timeline_slot(25)
        ts.segment = self.clip
        self.slot = self.comp.create_sound_slot(25)
        self.seq = self.slot.segment
        self.clip2 = self.master.create_source_clip(ts.slot_id)
        self.seq.components.append(self.clip2)
        self.fill = c.Filler('sound', 7)
        self.seq.components.append(self.fill)
        self.comp.comments['one'] = 1
        self.comp.comments['two'] = 'zwei'
        self.ess = c.EssenceData()
        self.ess.mob_id = self.src.mob_id
        f.content.essencedata.append(self.ess)
        self.ess.open('w').write(util.pattern(5, 6000))
        opdef = c.OperationDef(AUID(int=0x17), 'op', '')
        opdef.media_kind = 'sound'
        opdef['IsTimeWarp'].value = False
        opdef['Bypass'].value = 0
        opdef['NumberInputs'].value = 1
        opdef['OperationCategory'].value = 'OperationCategory_Effect'
        f.dictionary.register_def(opdef)
        self.opdef = opdef
        self.pdef = c.ParameterDef(AUID(int=0x18), 'level', '', 'Rational')
        f.dictionary.register_def(self.pdef)
        self.pint = c.ParameterDef(AUID(int=0x1a), 'count', '', 'aafInt32')
        f.dictionary.register_def(self.pint)
        idef = c.InterpolationDef(AUID('5b6c85a4-0ede-11d3-80a9-006008143e6f'), 'LinearInterp', 'linear')
        f.dictionary.register_def(idef)
        self.op = c.OperationGroup(opdef, 7, 'sound')
        self.op.segments.append(c.Filler('sound', 7))
        self.var = c.VaryingValue(self.pdef, idef)
        self.var.add_keyframe(0, 1)
        self.var.add_keyframe(10, 2)
        self.op.parameters.append(self.var)
        self.const = c.ConstantValue(self.pint, 5)
        self.op.parameters.append(self.const)
        self.seq.components.append(self.op)
        self.tv = list(self.comp['UserComments'])[0]
        self.loose = c.MasterMob('loose')
        self.loose.comments['k'] = 1
        self.lclip = c.SourceClip(0, 5, self.master.mob_id, 1, 'sound')
        self.lvar = c.VaryingValue(self.pdef, idef)
        self.lvar.add_keyframe(1, 1)
        self.lconst = c.ConstantValue(self.pint)
        self.ltv = c.TaggedValue('n')
        self.lsrc = c.SourceMob('loosesource')
        self.lsrc.create_empty_slot(25, 'picture', 1)
        self.marker = c.DescriptiveMarker()
        self.held = [self.loose, self.lclip, self.lvar, self.lconst, self.ltv, self.lsrc, self.marker]

    def form(self):
        f = self.f
        return (aafrig.canon_file(f, skip=(aafrig.METADICT,)), tuple(snap(o) for o in self.held), meta_form(f), sorted(d.path() for d in f.manager.temp_dirs) if hasattr(f.manager, 'temp_dirs') else None)

    def close(self):
        try:
            self.f.f.close()
        except Exception:
            pass
        os.unlink(self.path)


def meta_form(f):
    md = f.metadict
    from lib import modelref
    return (modelref.live(md), sorted(map(str, md.classdefs_by_auid)), sorted(md.classdefs_by_name), sorted(map(str, md.typedefs_by_auid)), sorted(md.typedefs_by_name))


BAD = [1.5, b'x', [1], object, 1 << 31, AAFRational(1 << 31, 1), 'a\0b', '\ud800']
UNKNOWN = AUID(int=0xdeadbeef)


def calls():
    """name -> fn(project) of calls that have to be refused"""
    out = {}

    def add(name, fn):
        out[name] = fn
    for h in ('comp', 'loose'):
        for k in ('one', 'k', 'new'):
            for i, v in enumerate(BAD):
                add('%s.comments[%s] = bad%d' % (h, k, i), lambda p, h=h, k=k, v=v: getattr(p, h).comments.__setitem__(k, v))
        for i, k in enumerate((5, b'x', 'a\0b', None)):
            add('%s.comments[badkey%d] = 1' % (h, i), lambda p, h=h, k=k: getattr(p, h).comments.__setitem__(k, 1))
        add('%s.comments.append(5)' % h, lambda p, h=h: getattr(p, h).comments.append(5))
        add('%s.comments.append(filler)' % h, lambda p, h=h: getattr(p, h).comments.append(p.lclip))
        add('%s.comments.append(taken)' % h, lambda p, h=h: getattr(p, h).comments.append(p.tv))
        for i, r in enumerate(('x', [1], AAFRational(1 << 31, 1), {}, object())):
            add('%s.create_timeline_slot(rate%d)' % (h, i), lambda p, h=h, r=r: getattr(p, h).create_timeline_slot(r))
            add('%s.create_picture_slot(rate%d)' % (h, i), lambda p, h=h, r=r: getattr(p, h).create_picture_slot(r))
            add('%s.create_sound_slot(rate%d)' % (h, i), lambda p, h=h, r=r: getattr(p, h).create_sound_slot(r))
        for i in (-1, 1 << 32, 'x', 1.5, [1]):
            add('%s.create_timeline_slot(25, %r)' % (h, i), lambda p, h=h, i=i: getattr(p, h).create_timeline_slot(25, i))
        for mk in ('nosuchkind', 5, b'x', UNKNOWN):
            add('%s.create_empty_sequence_slot(%r)' % (h, mk), lambda p, h=h, mk=mk: getattr(p, h).create_empty_sequence_slot(25, media_kind=mk))
        for n in ('name', 'usage', 'mob_id'):
            for i, v in enumerate((5, b'x', object(), [1], 'a\0b')):
                if n == 'mob_id' and i == 4:
                    continue
                add('%s.%s = bad%d' % (h, n, i), lambda p, h=h, n=n, v=v: setattr(getattr(p, h), n, v))
    add('comp.mob_id = taken', lambda p: setattr(p.comp, 'mob_id', p.master.mob_id))
    add('comp.mob_id = None', lambda p: setattr(p.comp, 'mob_id', None))
    add('ess.mob_id = None', lambda p: setattr(p.ess, 'mob_id', None))
    add('ess.mob_id = bad', lambda p: setattr(p.ess, 'mob_id', 5))
    add('create taken slot', lambda p: p.comp.create_timeline_slot(25, 1))
    for h in ('src', 'tape', 'lsrc'):
        for mk in ('nosuchkind', 5):
            add('%s.create_empty_slot(%r)' % (h, mk), lambda p, h=h, mk=mk: getattr(p, h).create_empty_slot(25, mk))
        add('%s.create_empty_slot(taken)' % h, lambda p, h=h: getattr(p, h).create_empty_slot(25, 'picture', 1))
        add('%s.create_essence' % h, lambda p, h=h: getattr(p, h).create_essence(25))
        add('%s.create_tape_slots' % h, lambda p, h=h: getattr(p, h).create_tape_slots('other', 25, 25))
        for i, r in enumerate(('x', [1], AAFRational(1 << 31, 1))):
            add('%s.create_timecode_slot(rate%d)' % (h, i), lambda p, h=h, r=r: getattr(p, h).create_timecode_slot(r, 25))
            add('%s.create_tape_slots(rate%d)' % (h, i), lambda p, h=h, r=r: getattr(p, h).create_tape_slots('other', r, 25))
        for i, r in enumerate((1 << 16, -1, 'x', 1.5)):
            add('%s.create_timecode_slot(fps%d)' % (h, i), lambda p, h=h, r=r: getattr(p, h).create_timecode_slot(25, r))
        add('%s.descriptor = bad' % h, lambda p, h=h: setattr(getattr(p, h), 'descriptor', p.lclip))
        add('%s.descriptor = taken' % h, lambda p, h=h: setattr(getattr(p, h), 'descriptor', (p.src if h != 'src' else p.tape).descriptor))
    for h in ('fresh', 'freshfree'):
        for n, args in (('rate', ('x', 25)), ('rate2', (AAFRational(1 << 31, 1), 25)), ('fps', (25, 1 << 16)), ('fps2', (25, 'x')), ('drop', (25, 25, 'x')),
                        ('kind', (25, 25, False, 'nosuchkind')), ('length', (25, 25, False, None, 1 << 63)), ('name', None)):
            add('%s.create_tape_slots(%s)' % (h, n), lambda p, h=h, args=args: fresh(p, h).create_tape_slots(5, 25, 25) if args is None else fresh(p, h).create_tape_slots('t', *args))
        add('%s.create_essence(rate)' % h, lambda p, h=h: fresh(p, h).create_essence('x'))
        add('%s.create_essence(kind)' % h, lambda p, h=h: fresh(p, h).create_essence(25, 'nosuchkind'))
    for h in ('clip', 'lclip', 'fill', 'seq'):
        for mk in ('nosuchkind', 5, b'x'):
            add('%s.media_kind = %r' % (h, mk), lambda p, h=h, mk=mk: setattr(getattr(p, h), 'media_kind', mk))
        for i, v in enumerate(('x', 1.5, 1 << 63, [1])):
            add('%s.length = bad%d' % (h, i), lambda p, h=h, v=v: setattr(getattr(p, h), 'length', v))
    for h in ('clip', 'lclip'):
        for v in (5, None, 'x'):
            add('%s.mob = %r' % (h, v), lambda p, h=h, v=v: setattr(getattr(p, h), 'mob', v))
            add('%s.slot = %r' % (h, v), lambda p, h=h, v=v: setattr(getattr(p, h), 'slot', v))
        add('%s.mob_id = auid' % h, lambda p, h=h: setattr(getattr(p, h), 'mob_id', UNKNOWN))
        add('%s.start = bad' % h, lambda p, h=h: setattr(getattr(p, h), 'start', 'x'))
    add('create_source_clip(absent)', lambda p: p.master.create_source_clip(99))
    add('create_source_clip(None)', lambda p: p.master.create_source_clip())
    add('create_source_clip(kind)', lambda p: p.master.create_source_clip(1, media_kind='nosuchkind'))
    for h in ('var', 'lvar'):
        for i, (a, b) in enumerate((('x', 1), (1, 'x'), (1, [1]), (AAFRational(1 << 31, 1), 1), (1, AAFRational(1 << 31, 1)), (None, 1), (0, 'x'), (10, object()), (1, None))):
            add('%s.add_keyframe bad%d' % (h, i), lambda p, h=h, a=a, b=b: getattr(p, h).add_keyframe(a, b))
        add('%s.add_keyframe bad hint' % h, lambda p, h=h: getattr(p, h).add_keyframe(1, 1, 'nosuchhint'))
        add('%s point value' % h, lambda p, h=h: setattr(getattr(p, h)['PointList'][0], 'value', 'x'))
        add('%s point time' % h, lambda p, h=h: setattr(getattr(p, h)['PointList'][0], 'time', 'x'))
        add('%s.interpolation = bad' % h, lambda p, h=h: setattr(getattr(p, h), 'interpolationdef', p.pdef))
        add('%s.parameterdef = bad' % h, lambda p, h=h: setattr(getattr(p, h), 'parameterdef', 5))
    add('var.parameterdef = other', lambda p: setattr(p.var, 'parameterdef', p.pint))
    add('var.auid = other', lambda p: setattr(p.var, 'auid', UNKNOWN))
    for h in ('const', 'lconst'):
        for i, v in enumerate(('x', 1.5, 1 << 31, [1], object())):
            add('%s.value = bad%d' % (h, i), lambda p, h=h, v=v: setattr(getattr(p, h), 'value', v))
    for h in ('tv', 'ltv'):
        for i, v in enumerate(BAD):
            add('%s.value = bad%d' % (h, i), lambda p, h=h, v=v: setattr(getattr(p, h), 'value', v))
        for i, (v, ty) in enumerate((('x', 'aafInt32'), (1 << 31, 'aafInt32'), (5, 'aafString'), (5, 'NoSuchType'), ([1], 'Rational'))):
            add('%s.encode_value bad%d' % (h, i), lambda p, h=h, v=v, ty=ty: getattr(p, h).encode_value(v, p.f.metadict.lookup_typedef(ty) or ty))
    add('mobs.append(mob again)', lambda p: p.f.content.mobs.append(p.comp))
    add('mobs.append(5)', lambda p: p.f.content.mobs.append(5))
    add('mobs.extend([loose, comp])', lambda p: p.f.content.mobs.extend([p.loose, p.comp]))
    add('mobs.extend([loose, 5])', lambda p: p.f.content.mobs.extend([p.loose, 5]))
    add('mobs.value = [loose, 5]', lambda p: setattr(p.f.content.mobs, 'value', [p.loose, 5]))
    add('mobs.pop(absent)', lambda p: p.f.content.mobs.pop(MobID()))
    add('essencedata.append(mob)', lambda p: p.f.content.essencedata.append(p.loose))
    add('slots.append(slot again)', lambda p: p.comp.slots.append(p.slot))
    add('components.append(ancestor)', lambda p: p.seq.components.append(p.seq))
    add('components.insert taken', lambda p: p.seq.components.insert(0, p.clip))
    add('op.parameters = x', lambda p: p.op.parameters.extend([p.lvar, 5]))
    for v in (5, 'x', UNKNOWN):
        add('operation = %r' % (v,), lambda p, v=v: setattr(p.op, 'operation', v))
    add('register_def(mob)', lambda p: p.f.dictionary.register_def(p.loose))
    add('register_def(again)', lambda p: p.f.dictionary.register_def(p.opdef))
    add('register_def(5)', lambda p: p.f.dictionary.register_def(5))
    add('dictionary.update(5)', lambda p: p.f.dictionary.update(5))
    add('opdef.media_kind', lambda p: setattr(p.opdef, 'media_kind', 'nosuchkind'))
    add('opdef.auid = taken', lambda p: setattr(p.opdef, 'auid', UNKNOWN))
    add('pdef.typedef = bad', lambda p: setattr(p.pdef, 'typedef', p.opdef))
    md = {
        'parent': lambda m: m.register_classdef('McBad', UNKNOWN, 'NoSuchParent', True, {}),
        'parent2': lambda m: m.register_classdef('McBad', UNKNOWN, UNKNOWN, True, {}),
        'auid': lambda m: m.register_classdef('McBad', 'zzz', 'Mob', True, {}),
        'ptype': lambda m: m.register_classdef('McBad', UNKNOWN, 'Mob', True, {'P': ('c17c17c1-0000-4000-8000-000000000009', None, 'NoSuchType', True, False)}),
        'ptype2': lambda m: m.register_classdef('McBad', UNKNOWN, 'Mob', True, {'P': ('c17c17c1-0000-4000-8000-000000000009', None, UNKNOWN, True, False)}),
        'pauid': lambda m: m.register_classdef('McBad', UNKNOWN, 'Mob', True, {'P': ('zzz', None, 'aafInt32', True, False)}),
        'second': lambda m: m.register_classdef('McBad', UNKNOWN, 'Mob', True, {'P': ('c17c17c1-0000-4000-8000-000000000009', None, 'aafInt32', True, False), 'Q': ('zzz', None, 'aafInt32', True, False)}),
        'prop': lambda m: m.lookup_classdef('Mob').register_propertydef('McP', 'c17c17c1-0000-4000-8000-000000000009', None, 'NoSuchType', True),
        'prop2': lambda m: m.lookup_classdef('Mob').register_propertydef('McP', 'zzz', None, 'aafInt32', True),
        'proppid': lambda m: m.lookup_classdef('Mob').register_propertydef('McP', 'c17c17c1-0000-4000-8000-000000000009', 0x4402, 'aafInt32', True),
        'model': lambda m: m.register_typedef_model({'ints': {'McI': ('zzz', 4, True)}}),
        'model2': lambda m: m.register_typedef_model({'nosuchkind': {'McI': (str(UNKNOWN), 4, True)}}),
    }
    for n, fn in md.items():
        add('metadict %s' % n, lambda p, fn=fn: fn(p.f.metadict))
    return out


def fresh(p, h):
    if h not in p.__dict__:
        m = p.f.create.SourceMob('fresh')
        p.__dict__[h] = m
        if h == 'fresh':
            p.f.content.mobs.append(m)
        else:
            p.held.append(m)
    return p.__dict__[h]


def run_calls(case, t):
    """case: list of call names, run on one project; refused ones must leave no trace"""
    C = calls()
    p = Project()
    done = []
    try:
        for h in ('fresh', 'freshfree'):
            fresh(p, h)
        before = p.form()
        for name in case:
            try:
                C[name](p)
            except (Skip, Violation):
                raise
            except Exception as e:
                t.step()
                t.count('refused')
                t.outcome(type(e).__name__)
                done.append(name)
                now = p.form()
                if now != before:
                    d = aafref.diff(before[0], now[0]) if before[0] != now[0] else [aafref.short(x)[:300] for x, y in zip(before[1], now[1]) if x != y] + [aafref.short((x, y))[:300] for x, y in zip(now[2], before[2]) if x != y]
                    raise Violation('%s was refused (%s: %s) but changed: %s' % (name, type(e).__name__, str(e)[:80], '; '.join(d)[:500]), 'call:' + name.split('(')[0].split(' =')[0], case=[name])
                continue
            t.count('accepted')
            t.outcome('accepted: ' + name.split('.', 1)[-1])
            p.close()
            p = Project()
            for h in ('fresh', 'freshfree'):
                fresh(p, h)
            before = p.form()
            done = []
        finish_project(p, done)
    finally:
        p.close()


def finish_project(p, done):
    f = p.f
    # everything still works
    p.comp.comments['three'] = 3
    p.loose.create_timeline_slot(25).segment = p.lclip
    f.content.mobs.append(p.loose)
    p.op.parameters.value = [p.const] if False else list(p.op.parameters.value)
    p.seq.components.append(f.create.Filler('sound', 3))
    p.tape.create_timecode_slot(25, 25)
    for m in (p.fresh, p.freshfree, p.lsrc):
        m.descriptor = f.create.TapeDescriptor()
    p.freshfree.create_tape_slots('t', 25, 25)
    for m in (p.freshfree, p.lsrc):
        f.content.mobs.append(m)
    live = aafrig.canon_file(f, skip=(aafrig.METADICT,))
    try:
        f.close()
    except Exception as e:
        raise Violation('the file cannot be saved after refused calls: %s: %s' % (type(e).__name__, str(e)[:200]), 'save', case=done)
    a = aafrig.load(p.path)
    a.check_weak()
    if a.errors:
        raise Violation('stored file: %s' % a.errors[:3], 'stored', case=done)
    stored = (a.root[0], {k: v for k, v in a.root[1].items() if k != aafrig.METADICT})
    if live != stored:
        raise Violation('stored file differs from the live objects after refused calls: %s' % '; '.join(aafref.diff(live, stored)), 'stored', case=done)


def call_cases(n):
    def gen():
        names = list(calls())
        for i in range(0, len(names), n):
            yield names[i:i + n]
    return gen


# ---------------------------------------------------------------- words of refused and valid edits

GOOD = {
    'c': lambda w: w.seq.components.append(w.new('Filler')),
    'p': lambda w: w.seq.components.pop(0) if len(w.seq.components) else None,
    'n': lambda w: setattr(w.mob, 'name', 'n%d' % w.tick()),
    's': lambda w: w.f.save(),
    'm': lambda w: setattr(w.mob, 'mob_id', MobID(int=HOLD.int + 100 + w.tick())),
    't': lambda w: w.mob.comments.__setitem__('k%d' % (w.tick() % 2), w.n),
    'w': lambda w: w.take(),
}
REFUSED = {
    'A': lambda w: w.seq.components.extend([w.spare, w.taken]),
    'B': lambda w: setattr(w.seq.components, 'value', list(w.seq.components.value)[::-1] + [w.spare, w.taken]),
    'C': lambda w: w.seq.components.__setitem__(0, w.taken),
    'D': lambda w: w.seq.components.insert(0, w.foreign),
    'E': lambda w: setattr(w.mob, 'mob_id', w.other.mob_id),
    'F': lambda w: w.f.content.mobs.extend([w.sparemob, w.other]),
    'G': lambda w: setattr(w.f.content.mobs, 'value', [w.mob, w.sparemob, 5]),
    'H': lambda w: w.mob.comments.__setitem__('k0', 1.5),
    'I': lambda w: w.mob.comments.__setitem__('new', [1]),
    'J': lambda w: setattr(w.mob, 'name', 5),
    'K': lambda w: setattr(w.slot, 'segment', w.taken),
    'L': lambda w: w.mob.create_empty_sequence_slot(25, media_kind='nosuchkind'),
    'M': lambda w: setattr(w.seq['DataDefinition'], 'value', w.foreigndef),
    'N': lambda w: w.seq.components.extend(failing([w.spare])),
}


class Small(object):
    def __init__(self, i=0):
        self.n = 0
        self.path = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
        f = self.f = aaf2.open(self.path, 'r+')
        self.now = None
        self.mob = self.mkmob(1)
        self.other = self.mkmob(2)
        self.sparemob = self.mkmob(3)
        f.content.mobs.extend([self.mob, self.other])
        self.slot = self.mob.create_picture_slot(25)
        self.seq = self.slot.segment
        self.taken = self.other.create_picture_slot(25).segment
        self.spare = f.create.Filler('picture', 99)
        self.gone = []

    def mkmob(self, k):
        m = self.f.create.CompositionMob('m%d' % k)
        m.mob_id = MobID(int=HOLD.int + k)
        import datetime
        m['CreationTime'].value = m['LastModified'].value = datetime.datetime(2001, 2, 3)
        return m

    def tick(self):
        self.n += 1
        return self.n

    def new(self, c):
        return self.f.create.Filler('picture', self.tick())

    def take(self):
        """take the sequence out of its slot and put it back"""
        self.slot['Segment'].value = self.f.create.Filler('picture', 1)
        self.slot['Segment'].value = self.seq

    @property
    def foreign(self):
        return _foreign()[0]

    @property
    def foreigndef(self):
        return _foreign()[1]


_fo = []


def _foreign():
    if not _fo:
        g = aaf2.open(None, 'w')
        _fo.extend([g.create.Filler('picture', 5), g.dictionary.lookup_datadef('picture'), g])
    return _fo


def play(word):
    w = Small()
    try:
        out = []
        for c in word:
            if c in GOOD:
                GOOD[c](w)
                continue
            try:
                REFUSED[c](w)
            except Exception as e:
                out.append(c)
                continue
            if c == 'C' and not len(w.seq.components):
                raise Violation('item assignment to an empty list was accepted', 'accepted', case=[word])
            raise Violation('refusable edit %s accepted in %s' % (c, word), 'accepted', case=[word])
        try:
            w.f.close()
        except Exception as e:
            raise Violation('after %s the file cannot be closed: %s: %s [%s]' % (word, type(e).__name__, str(e)[:200], tb_tail(e)), 'save', case=[word])
        a = aafrig.load(w.path, what='after %s: ' % word)
        a.check_weak()
        if a.errors:
            raise Violation('after %s: %s' % (word, a.errors[:3]), 'stored', case=[word])
        return {k: v for k, v in a.root[1].items() if k != aafrig.METADICT}
    finally:
        try:
            w.f.f.close()
        except Exception:
            pass
        os.unlink(w.path)


_plain = {}


def run_words(case, t):
    for word in case:
        plain = ''.join(c for c in word if c in GOOD)
        if plain not in _plain:
            if len(_plain) > 64:
                _plain.clear()
            _plain[plain] = aafref_hash(play(plain))
        t.step(len(word))
        got = play(word)
        if aafref_hash(got) != _plain[plain]:
            d = aafref.diff((b'', play(plain)), (b'', got))
            raise Violation('%s stores something else than %s does: %s' % (word, plain, '; '.join(d)), 'word', case=[word])
        t.state(_plain[plain])


def aafref_hash(x):
    from lib.mc import h64
    return h64(norm(x))


def norm(x):
    if isinstance(x, dict):
        return tuple(sorted((k, norm(v)) for k, v in x.items() if k != 0x1510 or True))
    if isinstance(x, tuple):
        return tuple(norm(v) for v in x)
    return x


def word_cases(n, good, bad, chunk):
    def gen():
        out = []
        for w in words(good + bad, n, 1):
            w = ''.join(w)
            if not any(c in REFUSED for c in w):
                continue
            out.append(w)
        out.sort(key=lambda w: (''.join(c for c in w if c in GOOD), w))
        for i in range(0, len(out), chunk):
            yield out[i:i + chunk]
    return gen


def spaces(tier):
    if tier == 'quick':
        return [
            Space('classes', class_cases([1, 0], [True], 1), run_class, 'every refusable edit of every property of every concrete class, all set and only required ones set, attached', cpu_limit=240),
            Space('free', class_cases([1], [False], 1), run_class, 'the same on free objects', cpu_limit=240),
            Space('calls', call_cases(12), run_calls, 'every refusable call of the object interface on a small project', cpu_limit=240),
            Space('words', word_cases(2, 'cs', ''.join(REFUSED), 12), run_words, 'words over valid and refused edits and saves, up to 2', cpu_limit=240),
        ]
    return [
        Space('classes', class_cases([2, 1, 0], [True, False], 2), run_class, 'every refusable edit of every property of every concrete class, two levels, one level or only required ones set; free and attached', cpu_limit=900),
        Space('calls', call_cases(8), run_calls, 'every refusable call of the object interface on a small project', cpu_limit=900),
        Space('words', word_cases(3, 'cpnsmtw', ''.join(REFUSED), 12), run_words, 'words over valid and refused edits and saves, up to 3', cpu_limit=900),
    ]
