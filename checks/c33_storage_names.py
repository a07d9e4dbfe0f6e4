"""C33: property storage names are legal and collision-free.

Objects with storage (streams, referenced objects, vectors and sets of objects, lists of weak
references) are built for every class of the data model with every property that owns storage,
and for classes of their own with every pattern of property names (all lengths, names that
differ where they are shortened, every special character at every position, characters
outside the basic plane), and saved.  An independent reader checks each container entry of
the result: legal name, fits, no two the same, each belongs to one property or element; the
content must be what was put in, and the same names are given when it is done again.  The
name given to a property is also computed for all numbers and patterns, and lists and sets are
continued from every boundary of the local numbers."""
import os, struct, itertools
import aaf2, aaf2.cfb
from aaf2 import utils
from aaf2.auid import AUID
from lib import aafref, aafrig, cfbref, filler, util
from lib.mc import Space, Violation, exc_site, tb_tail

LEVEL = 'model_checking'
ASSUMPTIONS = ['a legal property name is any non-empty text without null characters and lone surrogates']

ILLEGAL = u'/\\:!'
LONG = 31           # characters (utf-16 code units) of an entry name


def units(s):
    return len(s.encode('utf-16-le')) // 2


def fold(s):
    return cfbref.name_key(s)


def legal(data, what):
    """names of all entries: fit, legal, none twice in a storage"""
    img = cfbref.parse(data)
    if img.errors:
        raise Violation('%s: %s' % (what, '; '.join(img.errors[:3])), 'container')
    seen = {}
    out = []
    for e in img.ents:
        if not e.type or e.type == 5:
            continue
        name = e.name
        if units(name) > LONG:
            raise Violation('%s: the name %r does not fit' % (what, name), 'long')
        for ch in ILLEGAL:
            if ch in name:
                raise Violation('%s: the name %r has the illegal character %r' % (what, name, ch), 'illegal')
        out.append(name)
    for p in img.tree:
        up = (os.path.dirname(p), fold(os.path.basename(p)))
        if up in seen:
            raise Violation('%s: two entries named %r' % (what, p), 'collision')
        seen[up] = True
    return img


# ---------------------------------------------------------------- own property names

KINDS = ['kAAFTypeID_ComponentStrongReferenceVector', 'Stream', 'kAAFTypeID_SegmentStrongReference', 'kAAFTypeID_TaggedValueDefinitionStrongReferenceSet', 'kAAFTypeID_DataDefinitionWeakReferenceVector']


def put(f, s, name, kind, n):
    if kind == 0:
        s[name].value = [f.create.Filler('picture', n), f.create.Filler('picture', n + 1)]
    elif kind == 1:
        st = s[name].open('w')
        st.write(util.pat(n, [10, 4200][n % 2]))
    elif kind == 2:
        s[name].value = f.create.Filler('picture', n)
    elif kind == 3:
        s[name].value = [f.create.TaggedValueDef(AUID(int=0xabc << 64 | n + i), u't%d' % (n + i), u'') for i in range(2)]
    else:
        s[name].value = [f.dictionary.lookup_datadef(x) for x in ('picture', 'sound')]


def seen(s, name, kind):
    p = s[name]
    if kind == 0:
        return [x.length for x in p.value]
    if kind == 1:
        return bytes(p.open('r').read())
    if kind == 2:
        return p.value.length
    if kind == 3:
        return sorted(x.auid.int & 0xffff for x in p.value)
    return [x.short_name for x in p.value]


def wanted(kind, n):
    return [[n, n + 1], util.pat(n, [10, 4200][n % 2]), n, [n, n + 1], [u'Picture', u'Sound']][kind]


def build(path, names, base_pid):
    """a slot with properties of these names (kinds in turn), twice; n counts the properties"""
    with aaf2.open(path, 'w', extensions=False, sector_size=512) as f:
        props = {}
        for i, nm in enumerate(names):
            props[nm] = (AUID(int=0x77 << 96 | i + 1), None if base_pid is None else base_pid + i, KINDS[i % 5], True, False)
        f.metadict.register_classdef(u'OwnSlot', AUID(int=0x99 << 96), 'TimelineMobSlot', True, props)
        m = f.create.MasterMob('m')
        f.content.mobs.append(m)
        for k in range(2):
            s = f.create.OwnSlot()
            s['SlotID'].value = k + 1
            s['EditRate'].value = 25
            s['Origin'].value = 0
            s['Segment'].value = f.create.Filler('picture', 5)
            if k == 0:
                m.slots.append(s)           # in the file first, then filled
            for i, nm in enumerate(names):
                put(f, s, nm, i % 5, 10 * i + k) if not (k and i % 5 == 1) else None
            if k == 1:
                m.slots.append(s)           # filled first
                for i, nm in enumerate(names):
                    if i % 5 == 1:
                        put(f, s, nm, 1, 10 * i + k)


def check_names(names, base_pid, t, what):
    path = aafrig.newpath('n')
    try:
        try:
            build(path, names, base_pid)
        except Exception as e:
            raise Violation('%s: %s: %s [%s]' % (what, type(e).__name__, e, tb_tail(e)), exc_site(e))
        data = aafrig.readfile(path)
        img = legal(data, what)
        a = aafref.load(data)
        if a.errors:
            raise Violation('%s: the file is not well formed: %s' % (what, '; '.join(a.errors[:3])), 'malformed')
        try:
            with aaf2.open(path, 'r+') as f:
                slots = list(list(f.content.mobs)[0].slots)
                for k, s in enumerate(slots):
                    for i, nm in enumerate(names):
                        got = seen(s, nm, i % 5)
                        if got != wanted(i % 5, 10 * i + k):
                            raise Violation('%s: %r of slot %d is %s, should be %s' % (what, nm, k + 1, str(got)[:100], str(wanted(i % 5, 10 * i + k))[:100]), 'content')
                # go on in it: replaced, added to, removed
                for i, nm in enumerate(names):
                    if i % 5 == 0:
                        slots[0][nm].append(f.create.Filler('picture', 77))
                    elif i % 5 == 2:
                        slots[0][nm].value = f.create.Filler('picture', 78)
                    elif i % 5 == 1:
                        del slots[1][nm]
        except Violation:
            raise
        except Exception as e:
            raise Violation('%s, opened again: %s: %s [%s]' % (what, type(e).__name__, e, tb_tail(e)), exc_site(e))
        again = aafrig.readfile(path)
        legal(again, what + ', edited')
        a = aafref.load(again)
        if a.errors:
            raise Violation('%s, edited: the file is not well formed: %s' % (what, '; '.join(a.errors[:3])), 'malformed')
        # again, in another file: the same names
        build(path, names, base_pid)
        if sorted(cfbref.parse(aafrig.readfile(path)).tree) != sorted(img.tree):
            raise Violation('%s: done again the names are others' % what, 'reproducible')
    finally:
        if os.path.exists(path):
            os.unlink(path)
    t.step(len(names))


def run_names(case, t):
    """case: first number (none: given by the file), names"""
    base, names = case
    try:
        check_names(names, base, t, 'properties named %s' % ascii(names)[:300])
    except Violation as e:
        # a single name that fails
        for i, nm in enumerate(names):
            for kind in (i % 5,):
                one = [u'plain%d' % j for j in range(kind)] + [nm]
                try:
                    check_names(one, base, t, 'a %s named %s' % (KINDS[kind], ascii(nm)))
                except Violation as e1:
                    raise Violation(str(e1), e1.sig, case=[base, one])
        raise
    t.state(tuple(names))
    t.outcome('names')


CHARS = [u'x', u'-', u'_', u'.', u' ', u'{', u'}', u'0', u'é', u'ß', u'İ', u'ſ', u'\u4e2d', u'\ufffd', u'\U0001f600', u'\U0010ffff', u'\t', u'\x01', u'/', u'\\', u':', u'!', u'*', u'?', u'"', u'<', u'>', u'|', u'%', u'\u0301']
FIXED = [u'properties', u'referenced properties', u'properties index', u'x index', u'x{0}', u'{0}', u' index', u'Segment', u'Segment-4803', u'SEGMENT', u'segment', u'SlotID', u'-', u'--', u'.', u'..', u'Root Entry', u'con', u'a-1', u'a-1{0}', u'A-1', u'Header-2', u'-ffff', u'~', u'`', u"'"]


def lengths():
    for n in range(1, 45):
        yield (u'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')[:n]
    for n in (45, 62, 63, 64, 100, 255, 256, 1000):
        yield u'y' * n


def middles(n):
    """long names that differ in their middle only, and only in the case"""
    for i in range(n):
        yield u'aaaaaaaaaaaaaaaa%dzzzzzzzzzzzzzzzzz' % i
    for i in range(8):
        yield u''.join(c.upper() if i >> (j % 3) & 1 else c for j, c in enumerate(u'similarnamesimilarname'))


def places(ch, n):
    """a character at every position of a name as long as n"""
    for i in range(n):
        yield u'q' * i + ch + u'r' * (n - i - 1)


def groups(it, n, dup=False):
    """lists of n different names"""
    out, have = [], set()
    for x in it:
        if x in have or x in (u'Segment', u'SlotID'):
            continue
        have.add(x)
        out.append(x)
        if len(out) == n:
            yield out
            out = []
    if out:
        yield out


def name_cases(full):
    def cases():
        bases = [None, 0x4f01] if full else [None]
        for base in bases:
            # each name with each kind: rotations
            for rot in range(5 if full else 1):
                def turn(names):
                    names = list(names)
                    return [u'pad%d' % i for i in range(rot)] + names
                for g in groups(turn(lengths()), 26):
                    yield [base, g]
                for g in groups(turn(FIXED), 26):
                    yield [base, g]
                for g in groups(turn(middles(20)), 28):
                    yield [base, g]
                for g in groups(turn(u'%s' % c for c in CHARS), 30):
                    yield [base, g]
                for g in groups(turn(c * n for c in CHARS for n in ((8, 40) if not full else (2, 7, 8, 9, 15, 16, 17, 31, 32, 40))), 30):
                    yield [base, g]
                for c in (CHARS if full else [u'/', u'\\', u':', u'!', u'\U0001f600', u'{']):
                    for n in ((25, 40) if full else (25,)):
                        for g in groups(turn(places(c, n)), 40):
                            yield [base, g]
    return cases


# ---------------------------------------------------------------- the name of a property

def run_mangle(case, t):
    """case: names, numbers, size: names of all numbers fit, differ, and are given again"""
    names, lo, hi, step, size = case
    room = LONG if size == 32 else 21            # elements and indexes add to the name
    for nm in names:
        have = {}
        for pid in range(lo, hi, step):
            x = utils.mangle_name(nm, pid, size)
            if units(x) > room:
                raise Violation('property %s, %x: name %s does not fit in %d' % (ascii(nm), pid, ascii(x), room), 'long', case=[[nm], pid, pid + 1, 1, size])
            if any(c in x for c in ILLEGAL) or not x:
                raise Violation('property %s, %x: illegal name %s' % (ascii(nm), pid, ascii(x)), 'illegal', case=[[nm], pid, pid + 1, 1, size])
            try:
                x.encode('utf-16-le').decode('utf-16-le')
            except UnicodeError:
                raise Violation('property %s, %x: half a character in the name %s' % (ascii(nm), pid, ascii(x)), 'illegal', case=[[nm], pid, pid + 1, 1, size])
            if x != utils.mangle_name(nm, pid, size):
                raise Violation('property %s, %x: another name when asked again' % (ascii(nm), pid), 'reproducible', case=[[nm], pid, pid + 1, 1, size])
            k = fold(x)
            if have.setdefault(k, pid) != pid:
                raise Violation('property %s: the same name %s for %x and %x' % (ascii(nm), ascii(x), have[k], pid), 'collision', case=[[nm], lo, hi, step, size])
        t.step(len(have))
        t.state((nm, size))
    # different names, numbers next to each other
    have = {}
    for i, nm in enumerate(names):
        for pid in (lo + i, hi - i - 1):
            k = fold(utils.mangle_name(nm, pid, size))
            if have.setdefault(k, pid) != pid:
                raise Violation('the same name %s for properties %x and %x' % (ascii(k), have[k], pid), 'collision')
    t.outcome('numbers')


def mangle_cases(full):
    def cases():
        names = list(lengths())[::1 if full else 4] + FIXED[::1 if full else 3] + list(middles(20))[::1 if full else 6] + [c * n for c in CHARS for n in ((1, 7, 14, 15, 16, 17, 26, 27, 28, 29, 40) if full else (1, 40))]
        names += [x for c in ([u'\U0001f600', u'/'] if full else [u'\U0001f600']) for n in (14, 15, 16, 24, 25, 26, 27, 28, 29, 40) for x in places(c, n)]
        for size in (32, 22):
            for i in range(0, len(names), 12):
                if full:
                    yield [names[i:i + 12], 1, 0x10000, 1, size]
                else:
                    yield [names[i:i + 12], 1, 0x120, 1, size]
                    yield [names[i:i + 12], 0xf80, 0x1080, 1, size]
                    yield [names[i:i + 12], 1, 0x10000, 0x173, size]
    return cases


# ---------------------------------------------------------------- every class of the model

def run_model(case, t):
    """case: classes; each built with every property, twice; their storage"""
    ids = case
    path = aafrig.newpath('c')
    try:
        names = []
        for round_ in range(2):
            with aaf2.open(path, 'w') as f:
                m = filler.Model()
                F = filler.Filler(f, m)
                mob = f.create.MasterMob('holder')
                f.content.mobs.append(mob)
                for n, a in enumerate(ids):
                    for k in range(2):
                        o = F.make(a, 1, n + k)
                        hold(f, m, a, o)
                what = 'classes %s' % [m.classes[a]['name'] for a in ids]
            data = aafrig.readfile(path)
            img = legal(data, what)
            a_ = aafref.load(data)
            if a_.errors:
                raise Violation('%s: the file is not well formed: %s' % (what, '; '.join(a_.errors[:3])), 'malformed')
            names.append(sorted(img.tree))
        if names[0] != names[1]:
            raise Violation('%s: done again the names are others: %s' % (what, sorted(set(names[0]) ^ set(names[1]))[:4]), 'reproducible')
        t.step(len(names[0]))
        t.state(tuple(ids))
        t.outcome('classes')
    except Violation:
        raise
    except Exception as e:
        raise Violation('classes %s: %s: %s [%s]' % (ids, type(e).__name__, e, tb_tail(e)), exc_site(e))
    finally:
        if os.path.exists(path):
            os.unlink(path)


HOLDER = (u'OwnHolder', AUID(int=0x66 << 96))


def hold(f, m, a, o):
    """put the object into the file: a class of our own holds any object"""
    d = f.metadict
    if d.lookup_classdef(HOLDER[0]) is None:
        d.register_typedef_model({'strongrefs': {u'OwnRef': (str(AUID(int=0x55 << 96)), str(d.lookup_classdef('InterchangeObject').auid))}, 'var_arrays': {u'OwnRefs': (str(AUID(int=0x54 << 96)), str(AUID(int=0x55 << 96)))}})
        d.register_classdef(HOLDER[0], HOLDER[1], 'TimelineMobSlot', True, {u'OwnThings': (AUID(int=0x53 << 96), None, u'OwnRefs', True, False)})
        s = f.create.OwnHolder()
        s['SlotID'].value = 1
        s['EditRate'].value = 25
        s['Origin'].value = 0
        s['Segment'].value = f.create.Filler('picture', 5)
        list(f.content.mobs)[0].slots.append(s)
        s[u'OwnThings'].value = []
        f._own = s
    f._own[u'OwnThings'].append(o)


# ---------------------------------------------------------------- local numbers

BOUNDS = [0, 1, 0xf, 0x10, 0xff, 0x100, 0xfff, 0xffff, 0x10000, 0xfffffff, 0x10000000, 0x7fffffff, 0x80000000, 0xfffffff0, 0xfffffffd, 0xfffffffe, 0xffffffff]


def retag(path, where, first, renumber):
    """as another writer would have numbered it: the next local number, and (renumber) that of the last element"""
    with open(path, 'rb+') as raw:
        c = aaf2.cfb.CompoundFileBinary(raw, 'rb+')
        s = c.open(where + ' index', 'rw')
        b = bytearray(s.read())
        n = struct.unpack('<I', b[:4])[0]
        b[4:8] = struct.pack('<I', first)
        if renumber is not None:
            at = 12 + 4 * (n - 1) if 'Slots' in where else 15 + 24 * (n - 1) + 16 * (n - 1) * (b[14] == 32)
            old = struct.unpack('<I', b[at:at + 4])[0]
            b[at:at + 4] = struct.pack('<I', renumber)
            if old != renumber:
                c.move('%s{%x}' % (where, old), '%s{%x}' % (where, renumber))
        s.seek(0)
        s.write(bytes(b))
        c.close()


def run_keys(case, t):
    """case: next local number, local number of the last element (none: as it was), collection, operations after it"""
    first, last, coll, word = case
    what = 'next local number %#x, last %s, %s, %s' % (first, last, coll, word)
    path = aafrig.newpath('k')
    try:
        with aaf2.open(path, 'w', extensions=False) as f:
            m = f.create.MasterMob('m')
            f.content.mobs.append(m)
            for i in range(2):
                m.slots.append(slot(f, i + 1))
        img = cfbref.parse(aafrig.readfile(path))
        mobs = [p for p in img.tree if p.endswith(' index') and '/Mobs-' in p and p.count('/') == 3][0][:-6]
        slots = [p for p in img.tree if p.endswith(' index') and '/Slots-' in p][0][:-6]
        least = 1 if coll == 'vector' else 0        # 2 elements are numbered 0 and 1, one mob 0
        retag(path, slots if coll == 'vector' else mobs, first, None if last is None or last < least else last)
        model = [1, 2] if coll == 'vector' else [0]
        n = 10
        refused = False
        try:
            with aaf2.open(path, 'r+', extensions=False) as f:
                mob = [m for m in f.content.mobs if m.name == 'm'][0]
                for o in word:
                    n += 1
                    if coll == 'vector':
                        if o == 'a':
                            mob.slots.append(slot(f, n))
                            model.append(n)
                        elif o == 'i':
                            mob.slots.insert(0, slot(f, n))
                            model.insert(0, n)
                        elif o == 'r':
                            mob.slots.pop(len(model) - 1)
                            model.pop()
                        elif o == 's':
                            f.save()
                    else:
                        if o in 'ai':
                            x = f.create.MasterMob(u'n%d' % n)
                            f.content.mobs.append(x)
                            model.append(n)
                        elif o == 'r' and len(model) > 1:
                            k = model.pop()
                            f.content.mobs.pop([m.mob_id for m in f.content.mobs if m.name == u'n%d' % k][0])
                        elif o == 's':
                            f.save()
        except Exception as e:
            raise Violation('%s: %s: %s [%s]' % (what, type(e).__name__, e, tb_tail(e)), exc_site(e))
        data = aafrig.readfile(path)
        legal(data, what)
        a = aafref.load(data)
        if a.errors:
            raise Violation('%s: the file is not well formed: %s' % (what, '; '.join(a.errors[:3])), 'malformed')
        with aaf2.open(path, 'r') as f:
            if coll == 'vector':
                got = [s.slot_id for s in [m for m in f.content.mobs if m.name == 'm'][0].slots]
            else:
                got = sorted(0 if m.name == 'm' else int(m.name[1:]) for m in f.content.mobs)
            if got != (model if coll == 'vector' else sorted(model)):
                raise Violation('%s: has %s, should have %s' % (what, got, model), 'content')
        t.step(len(word))
        t.state((first, last, coll))
        t.outcome('numbered')
    finally:
        if os.path.exists(path):
            os.unlink(path)


def slot(f, n):
    s = f.create.TimelineMobSlot()
    s['SlotID'].value = n
    s['EditRate'].value = 25
    s['Origin'].value = 0
    s['Segment'].value = f.create.Filler('picture', n)
    return s


def spaces(tier):
    full = tier != 'quick'
    ids = filler.Model().concrete()
    per = 8
    return [Space('own names', name_cases(full), run_names, 'patterns of property names', cpu_limit=200),
            Space('names of all numbers', mangle_cases(full), run_mangle, 'names x numbers of properties', cpu_limit=600),
            Space('model', lambda: (ids[i:i + per] for i in range(0, len(ids), per)), run_model, 'every concrete class, every property', cpu_limit=200),
            Space('local numbers', lambda: ([b, l, c, w] for b in BOUNDS for l in (None, b - 1, b, 0xffffffff) for c in ('vector', 'set') for w in ((('a', 'aaa', 'aisra') if l is None else ('aisra',)) if not full else ('a', 'i', 'aa', 'ra', 'ar', 'asa', 'aisra', 'aaaa', 'arar', 'sarsa', 'airiai'))), run_keys, 'collections continued from every boundary', cpu_limit=60)]
