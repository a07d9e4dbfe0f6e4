"""C31: opening for update and closing without edits changes nothing of substance.

Every sample file of the repository and every way of making a file (sector sizes, with and
without the built in extensions, own classes, types and element names, storages named and stored as other
writers do, essence, deep and empty content) is opened and closed without edits by every
word of sessions up to a length over the ways to open a file, reading nothing, something
or everything, saving or not.  After every session the file is read by an independent
reader: everything there before is there, and only definitions of the data model are new;
once nothing was added by a session of a kind, the later ones change nothing at all."""
import glob, io, os, struct
import aaf2, aaf2.file
from aaf2.auid import AUID
from aaf2.mobid import MobID
from lib import aafref, aafrig, cfbref, util
from lib.mc import Space, Violation, words, exc_site, tb_tail

LEVEL = 'model_checking'
ASSUMPTIONS = ['files are little endian and readable by the library']
REPO = os.environ.get('MC_REPO', '/repo')

META, CLASSES, TYPES, PROPS = 0x0001, 0x0003, 0x0004, 0x0009
ENUMS = ((0x0015, 0x0016), (0x001f, 0x0020))       # names and values of enumerations, extensible enumerations


# ---------------------------------------------------------------- files

def content(f, essence=True):
    m = f.create.MasterMob('master é')
    f.content.mobs.append(m)
    s = f.create.SourceMob('source')
    s.descriptor = f.create.PCMDescriptor()
    for k, v in (('Channels', 1), ('BlockAlign', 2), ('SampleRate', 48000), ('AverageBPS', 96000), ('QuantizationBits', 16), ('AudioSamplingRate', 48000), ('Length', 10)):
        s.descriptor[k].value = v
    s.descriptor['ContainerFormat'].value = f.dictionary.lookup_containerdef('AAF')
    f.content.mobs.append(s)
    if essence:
        e, slot = s.create_essence(48000, 'sound')
        slot.segment.length = 10
        st = e.open('w')
        st.write(util.pat(5, 5000))
    sl = m.create_empty_sequence_slot(25, media_kind='sound')
    for i in range(3):
        sl.segment.components.append(s.create_source_clip(1, i, 10) if essence else f.create.Filler('sound', i))
    m.comments['a'] = 'text'
    m.comments['b'] = 7


def own_classes(f, many=1):
    d = f.metadict
    for i in range(many):
        # local pids, as the extensions use them
        props = dict(('Own%d' % j, (AUID(int=0x1234 << 96 | i << 16 | j + 1), 0xc000 + 10 * i + j if i % 2 else None, 'aafInt32' if j else 'aafString', True, False)) for j in range(3))
        d.register_classdef('OwnClass%d' % i, AUID(int=0x4321 << 96 | i + 1), 'TimelineMobSlot', True, props)
    m = f.create.MasterMob('own')
    f.content.mobs.append(m)
    for i in range(many):
        x = getattr(f.create, 'OwnClass%d' % i)()
        x['SlotID'].value = i + 1
        x['EditRate'].value = 25
        x['Origin'].value = 0
        x['Segment'].value = f.create.Filler('picture', 5)
        x['Own0'].value = 'text %d' % i
        x['Own1'].value = -i
        m.slots.append(x)
    return m


def own_elements(which):
    """elements the extensions know, under names of the file's own, and values that use them"""
    def go(f):
        from aaf2.model.ext import typedefs
        content(f, False)
        for n, (name, args) in enumerate(sorted(typedefs.extenums.items())):
            t = f.metadict.lookup_typedef(name)
            new = [k for k in sorted(args[1]) if t is None or AUID(k) not in t.elements]
            own = {k: 'Mine%d' % i for i, k in enumerate(new) if which == 'all' or (i + n) % 2 == which}
            if own:
                f.metadict.register_typedef_model({'extenums': {name: (args[0], own)}})
        m = f.create.SourceMob()
        m.descriptor = f.create.CDCIDescriptor()
        for k, v in (('FrameLayout', 'FullFrame'), ('StoredWidth', 1), ('StoredHeight', 1), ('ImageAspectRatio', '1/1'), ('VideoLineMap', [1, 2]),
                     ('SampleRate', 1), ('Length', 1), ('ComponentWidth', 8), ('HorizontalSubsampling', 1)):
            m.descriptor[k].value = v
        t = f.metadict.lookup_typedef('ColorPrimariesType')
        mine = [v for v in t.elements.values() if v.startswith('Mine')]
        if mine:
            m.descriptor['ColorPrimaries'].value = mine[0]
        f.content.mobs.append(m)
    return go


def make(kw, fn, foreign=False):
    def go():
        p = aafrig.newpath('m')
        with aaf2.open(p, 'w', **kw) as f:
            fn(f)
        if foreign:
            aafrig.rename_storage(p)
        d = aafrig.readfile(p)
        os.unlink(p)
        return d
    return go


def edited(ways):
    """a file after sessions that edit and remove things"""
    def go():
        p = aafrig.newpath('m')
        for i, (mode, kw) in enumerate(ways):
            with aaf2.open(p, mode, **kw) as f:
                content(f, i == 0)
                mobs = list(f.content.mobs)
                if i:
                    f.content.mobs.pop(mobs[0].mob_id)
        d = aafrig.readfile(p)
        os.unlink(p)
        return d
    return go


def sample(name):
    return lambda: aafrig.readfile(os.path.join(REPO, 'tests', 'test_files', name))


NOEXT = {'extensions': False}
FILES = {
    'new': make({}, lambda f: None), 'new 512': make({'sector_size': 512}, lambda f: None), 'without extensions': make(NOEXT, lambda f: None),
    'content': make({}, content), 'content 512 without extensions': make(dict(NOEXT, sector_size=512), content),
    'own class': make({}, lambda f: own_classes(f, 1)), 'own classes without extensions': make(NOEXT, lambda f: (content(f, False), own_classes(f, 9))),
    'foreign names': make({}, content, True), 'foreign names without extensions': make(NOEXT, lambda f: (content(f), own_classes(f, 2)), True),
    'own element names': make(NOEXT, own_elements('all')), 'some own element names': make(NOEXT, own_elements(0)), 'other own element names': make(dict(NOEXT, sector_size=512), own_elements(1)),
    'edited': edited([('w', NOEXT), ('r+', {}), ('r+', NOEXT)]), 'edited 512': edited([('w', {'sector_size': 512}), ('r+', NOEXT), ('r+', {})]),
}
for _p in sorted(glob.glob(os.path.join(REPO, 'tests', 'test_files', '*.aaf')) + glob.glob(os.path.join(REPO, 'tests', 'test_files', 'retimes', '*.aaf'))):
    _n = os.path.relpath(_p, os.path.join(REPO, 'tests', 'test_files'))
    FILES[_n] = sample(_n)
# files that have the whole standard model and none of the extensions, unless a session adds them
BARE = ('without extensions', 'content 512 without extensions', 'own classes without extensions', 'own element names', 'some own element names', 'other own element names')
_data = {}


def data(name):
    if name not in _data:
        d = FILES[name]()
        a = aafref.load(d)
        _data[name] = (d, a)
    return _data[name]


# ---------------------------------------------------------------- sessions

def nothing(f):
    pass


def look(f):
    [m.name for m in f.content.mobs]
    f.header['OperationalPattern'].value


def everything(f):
    for obj, streams in f.root.walk_references():
        for p in obj.properties():
            try:
                p.value
            except (NotImplementedError, KeyError):
                pass            # values of kinds it cannot decode
        repr(obj)
    for e in f.content.essencedata:
        e.open('r').read()
    for m in f.content.mobs:
        list(m.comments.items())
        list(m.dependant_mobs())


def saved(f):
    f.save()


def saved_twice(f):
    everything(f)
    f.save()
    f.save()
    look(f)


WAYS = {
    'plain': ('r+', {}, nothing), 'bare': ('r+', NOEXT, nothing), 'rw': ('rw', {}, look), 'all': ('rb+', {}, everything), 'all bare': ('rw', NOEXT, everything),
    'raw': ('r+', {'buffering': 0}, everything), 'big buffer': ('rb+', {'buffering': 1 << 20}, saved), 'save': ('r+', {}, saved), 'save bare': ('r+', NOEXT, saved), 'twice': ('r+', {'sector_size': 512}, saved_twice),
    'read only': ('r', {}, everything), 'raw read only': ('rb', {'buffering': 0, 'extensions': False}, everything),
}


def elements(props, pids):
    """name -> value of an enumeration (others: the properties as they are)"""
    names, values = pids
    size = 16 if names == 0x1f else 8
    x, y = props.get(names), props.get(values)
    if x is None or y is None or x[0] != 'D' or y[0] != 'D':
        return {'': (x, y)}
    n = x[-1].decode('utf-16-le').split('\0')[:-1]
    if len(y[-1]) != size * len(n) or len(set(n)) != len(n):
        return {'': (x, y)}
    return {n[i]: y[-1][size * i:size * i + size] for i in range(len(n))}


def kept(a, b, what, where='', place=()):
    """everything of a is in b; only definitions are new"""
    if a is None or b is None:
        if a is not b:
            raise Violation('%s: %s: an object is missing or new' % (what, where or 'root'), 'changed')
        return False
    added = False
    if a[0] != b[0]:
        raise Violation('%s: %s: class %s is %s now' % (what, where, a[0].hex(), b[0].hex()), 'changed')
    for pid in sorted(set(a[1]) | set(b[1])):
        w = '%s.%04x' % (where, pid)
        x, y = a[1].get(pid), b[1].get(pid)
        if x == y:
            continue
        q = place + (pid,)
        pids = place == (META, TYPES) and [p for p in ENUMS if pid in p]
        if pids:
            m, n = elements(a[1], pids[0]), elements(b[1], pids[0])
            if any(n.get(k) != v for k, v in m.items()):
                raise Violation('%s: %s: elements of the type are gone or changed' % (what, w), 'changed')
            if any(v in m.values() for k, v in n.items() if k not in m):
                raise Violation('%s: %s: elements the type has are added under another name' % (what, w), 'again')
            added |= len(n) > len(m)
            continue
        if x is None and place == (META, CLASSES) and pid == PROPS:
            added = True      # the first properties of a class
            continue
        if x is None or y is None or x[0] != y[0]:
            raise Violation('%s: %s: %s, was %s' % (what, w, aafref.short(y), aafref.short(x)), 'changed')
        if x[0] == 'R':
            added |= kept(x[1], y[1], what, w, q)
        elif x[0] == 'V':
            if len(x[1]) != len(y[1]):
                raise Violation('%s: %s: %d elements, were %d' % (what, w, len(y[1]), len(x[1])), 'changed')
            for i, (m, n) in enumerate(zip(x[1], y[1])):
                added |= kept(m, n, what, '%s[%d]' % (w, i), q)
        elif x[0] == 'T':
            for k in x[1]:
                if k not in y[1]:
                    raise Violation('%s: %s[%s] is gone' % (what, w, k.hex()), 'changed')
                added |= kept(x[1][k], y[1][k], what, '%s[%s]' % (w, k.hex()), q)
            new = set(y[1]) - set(x[1])
            if new:
                if q not in ((META, CLASSES), (META, TYPES), (META, CLASSES, PROPS)):
                    raise Violation('%s: %s has new elements: %s' % (what, w, sorted(k.hex() for k in new)[:3]), 'changed')
                added = True
        else:
            raise Violation('%s: %s: %s, was %s' % (what, w, aafref.short(y), aafref.short(x)), 'changed')
    return added


def session(path, way, what):
    mode, kw, fn = WAYS[way]
    try:
        with aaf2.open(path, mode, **kw) as f:
            fn(f)
    except Exception as e:
        raise Violation('%s: %s: %s [%s]' % (what, type(e).__name__, e, tb_tail(e)), exc_site(e))


def run_word(case, t):
    """case: file, ways"""
    name, ways = case
    d, a = data(name)
    path = aafrig.newpath()
    aafrig.writefile(path, d)
    # kinds of sessions after which the file is complete for good
    done = set()
    try:
        for i, way in enumerate(ways):
            what = '%s, %s, session %d of %s' % (name, 'opened %r%s' % (way, WAYS[way][:2]), i + 1, list(ways))
            session(path, way, what)
            t.step()
            raw = aafrig.readfile(path)
            if raw == d:
                t.outcome('same bytes')
                b = a
            else:
                if WAYS[way][0] in ('r', 'rb'):
                    raise Violation('%s: a file opened for reading was changed' % what, 'changed')
                b = aafref.load(raw)
                new = [e for e in b.errors if e not in a.errors]
                if new:
                    raise Violation('%s: the file is not well formed: %s' % (what, '; '.join(new[:3])), 'malformed')
                if kept(a.root, b.root, what):
                    t.outcome('definitions added')
                    if name in BARE and kindof(way) == 'bare':
                        raise Violation('%s: definitions are added though the extensions were not asked for' % what, 'unasked')
                    kind = 'ext' if not WAYS[way][1].get('extensions') is False else 'bare'
                    if kind in done:
                        raise Violation('%s: definitions are added again' % what, 'again')
                elif i and kindof(way) in done and cfbref.parse(raw).streams != cfbref.parse(d).streams:
                    raise Violation('%s: stored differently though nothing was changed' % what, 'again')
                else:
                    t.outcome('same content')
            if WAYS[way][0] not in ('r', 'rb'):
                done.add('bare')
                if kindof(way) == 'ext':
                    done.add('ext')
            if len(raw) > len(d) and 'grown' in done:
                raise Violation('%s: the file grows from %d to %d bytes though nothing was changed' % (what, len(d), len(raw)), 'grows')
            if 'ext' in done:
                done.add('grown')
            d, a = raw, b
            t.state((name, hash(raw)))
    finally:
        os.unlink(path)


def kindof(way):
    return 'bare' if WAYS[way][1].get('extensions') is False else 'ext'


def run_live(case, t):
    """case: file, first way, second way: what is read from the second session is what was read before any"""
    name, way, other = case
    d, a = data(name)
    path = aafrig.newpath()
    aafrig.writefile(path, d)
    try:
        with aaf2.open(path, 'r') as f:
            before = aafrig.canon_file(f)
        aafrig.same(before, a.root, '%s, read through the library' % name)
        session(path, way, '%s, opened %s' % (name, way))
        mode, kw, fn = WAYS[other]
        with aaf2.open(path, mode, **kw) as f:
            fn(f)
            after = aafrig.canon_file(f)
        kept(before, after, '%s, opened %s, then read in a session opened %s' % (name, way, other))
        t.step()
        t.outcome('kept')
        t.state((name, way, other))
    finally:
        os.unlink(path)


SMALL = [n for n in FILES if not n.endswith('.aaf')]
SAMPLES = [n for n in FILES if n.endswith('.aaf')]
FEW = ['plain', 'bare', 'all', 'twice']


def word_cases(names, ways, n):
    def cases():
        for name in names:
            for w in words(ways, n, n):
                yield [name, list(w)]
    return cases


def live_cases(names, ways):
    def cases():
        for name in names:
            for a in ways:
                for b in ways:
                    yield [name, a, b]
    return cases


def spaces(tier):
    full = tier != 'quick'
    out = [Space('made files, every way, three times', lambda: ([n, [w, w, w]] for n in SMALL for w in WAYS), run_word, 'every file x every way to open it, three times', cpu_limit=60),
           Space('made files, all pairs', word_cases(SMALL if full else SMALL[2:9:2], list(WAYS) if full else FEW, 2), run_word, 'words of sessions', cpu_limit=60),
           Space('sample files', lambda: ([n, w] for n in SAMPLES for w in ([['plain', 'all', 'bare'], ['save bare', 'twice', 'plain']] if not full else [[a, b, a] for a in WAYS for b in WAYS])), run_word, 'every sample file', cpu_limit=100),
           Space('live', live_cases(SMALL if full else ['content', 'own element names', 'foreign names without extensions', 'own classes without extensions'], FEW), run_live, 'read through the library after a session', cpu_limit=60)]
    if full:
        out.append(Space('made files, words of 3', word_cases(SMALL, FEW + ['all bare', 'read only'], 3), run_word, 'words of sessions', cpu_limit=100))
        out.append(Space('live samples', live_cases(SAMPLES, FEW), run_live, 'read through the library after a session', cpu_limit=100))
    return out
