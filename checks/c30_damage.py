"""C30: damaged containers are rejected or read without hanging.

Small containers are built by an independent writer in both sector sizes, with and without
a second level of the table list.  Every link in them (header fields, table list, every
entry of both allocation tables, every field of every directory entry) is replaced by every
value of interest, and the file is cut at every sector; each damaged file is opened, walked
and read completely within a bound of reads and of time.  Whatever does not depend on the
damaged place and is read without an error must be right."""
import os, signal, struct
import aaf2, aaf2.cfb
from lib import aafrig, cfbmake, cfbref, util
from lib.cfbmake import FREE, EOC, FATS, DIFS
from lib.mc import Space, Violation, chunks, exc_site, tb_tail

LEVEL = 'model_checking'
ASSUMPTIONS = ['one link is damaged (two in the thorough pairs) or the file is cut once', 'entry names are undamaged']


class Counted(util.MemFile):
    """file that counts reads and refuses writes"""
    def __init__(self, data):
        super(Counted, self).__init__(data)
        self.reads = self.got = 0
        self.limit = 1 << 60
        self.changed = None

    def _n(self, k):
        self.reads += 1
        self.got += k
        if self.reads > self.limit:
            raise Endless()

    def read(self, *a):
        d = super(Counted, self).read(*a)
        self._n(len(d))
        return d

    def readinto(self, b):
        n = super(Counted, self).readinto(b)
        self._n(n)
        return n

    def write(self, d):
        self.changed = 'write'
        return super(Counted, self).write(d)

    def truncate(self, *a):
        self.changed = 'truncate'
        return super(Counted, self).truncate(*a)


class Endless(BaseException):
    pass


def P(i, n):
    return util.pat(i, n)


TREES = {
    'plain': {'/a': P(1, 100), '/d': None, '/d/e': None, '/d/e/big': P(2, 9000), '/d/mini': P(3, 700), '/big': P(4, 5000), '/empty': b'', '/z': None, '/d/x': P(5, 64)},
    'flat': dict(('/n%d' % i, P(i, 60 * i)) for i in range(9)),
    'deep': {'/p': None, '/p/q': None, '/p/q/r': None, '/p/q/r/s': None, '/p/q/r/s/t': P(6, 4100), '/p/q/u': P(7, 4095), '/v': None, '/v/w': None, '/v/w/x': P(8, 1)},
    'wide': dict([('/w', None)] + [('/w/s%02d' % i, P(i, 5 + i)) for i in range(20)] + [('/w/t', None), ('/w/t/last', P(9, 4096))]),
}
IMAGES = {'plain 512': (512, 'plain', 0), 'plain 4096': (4096, 'plain', 0), 'long list': (512, 'plain', 240), 'flat 512': (512, 'flat', 0), 'deep 512': (512, 'deep', 0), 'deep 4096': (4096, 'deep', 0), 'wide 512': (512, 'wide', 0), 'wide 4096': (4096, 'wide', 0)}
_made = {}


def image(name):
    if name not in _made:
        ss, tree, extra = IMAGES[name]
        m = cfbmake.make(ss, TREES[tree], extra)
        e = cfbref.parse(m.data).errors
        if e:
            raise AssertionError('harness image: %s' % e[:3])
        m.tree = TREES[tree]
        m.fields = [f for f in m.fields if not f[0].endswith('.name')]
        f, why = Counted(m.data), []
        session(f, m, (), '', why, True)
        m.reads = f.reads
        _made[name] = m
    return _made[name]


def values(m, what, off, size):
    old = int.from_bytes(m.data[off:off + size], 'little')
    v = set([0, 1, 2, FREE, EOC, FATS, DIFS, 0xFFFFFFFB, 0x7FFFFFFF, 0x80000000, 0x10000, old ^ 1, old + 1, old - 1])
    v |= set([m.nsect - 1, m.nsect, m.nsect + 1, len(m.data), len(m.data) // 64])
    if what.startswith('fat') or what.startswith('header') or what.startswith('difat') or what.endswith('.start'):
        v |= set([m.dirs[0], m.dirs[-1], m.fats[0]] + m.fats[-1:] + m.mfs[:1] + m.ms[:1] + m.ms[-1:])
        for c in m.chains.values():
            v |= set([c[0], c[len(c) // 2], c[-1]])
        if what.startswith('fat '):
            v |= set([int(what[4:])])
    if what.startswith('minifat') or what.endswith('.start'):
        for c in m.minis.values():
            v |= set([c[0], c[-1]])
        if what.startswith('minifat'):
            v |= set([int(what[8:])])
    if what.endswith('.left') or what.endswith('.right') or what.endswith('.child'):
        v |= set(range(len(m.ents) + 2))
    if what.endswith('.kind'):
        return [a | b << 8 for a in (0, 1, 2, 3, 5, 255) for b in (0, 1, 2)]
    if what.endswith('.high') or what.endswith('.size'):
        v |= set([4095, 4096, 64, 0x400000])
    return sorted(x & (256 ** size - 1) for x in v if x & (256 ** size - 1) != old)


def items(c, path):
    return [e.name for e in c.listdir(path)]


def bad(e):
    """kinds of errors that tell of something unbounded"""
    return isinstance(e, (MemoryError, RecursionError))


def session(f, m, broken, what, why, plain=False):
    """opens and reads everything; broken: fields damaged, or None when 'present' decides"""
    def guarded(name, fn):
        try:
            return fn()
        except Violation:
            raise
        except Exception as e:
            if plain:
                raise
            if bad(e):
                raise Violation('%s: %s ends with %s: %s [%s]' % (what, name, type(e).__name__, str(e)[:100], tb_tail(e)), 'unbounded')
            why.append((name, type(e).__name__))
            return guarded
    failed = guarded

    def whole(p):
        return broken(p) if callable(broken) else not any(b in m.needs[p] for b in broken)

    def size(d, p):
        if len(d) > len(m.data):
            raise Violation('%s: reading %s gives %d bytes, the file has %d' % (what, p, len(d), len(m.data)), 'unbounded')
        return d

    c = guarded('open', lambda: aaf2.cfb.CompoundFileBinary(f, 'rb'))
    if c is failed:
        return False
    limit = 200 * (len(m.data) // 128) + 10000

    def walk(topdown):
        out, n = {}, 0
        for root, st, sm in c.walk(topdown=topdown):
            for e in st + sm:
                out[root.name, e.name] = e
                n += 1
                if n > limit:
                    raise Violation('%s: walking gives more than %d entries' % (what, limit), 'unbounded')
        return out
    for topdown in (True, False):
        w = guarded('walk', lambda: walk(topdown))
        if w is not failed:
            for p in m.tree:
                if whole(p) and (p.split('/')[-2] or 'Root Entry', p.split('/')[-1]) not in w:
                    raise Violation('%s: walking leaves out %s' % (what, p), 'lost')
            for p, e in w.items():
                if e.isfile():
                    guarded('read walked', lambda: size(e.open('r').read(), p))

    for p, d in m.tree.items():
        r = guarded('find', lambda: (c.exists(p), c.find(p)))
        if r is failed:
            continue
        ok = whole(p)
        if ok and (not r[0] or r[1] is None):
            raise Violation('%s: %s is not found' % (what, p), 'lost')
        if r[1] is None:
            continue
        if d is None:
            l = guarded('list', lambda: items(c, p))
            if ok and l is not failed:
                for q in m.tree:
                    if q.rsplit('/', 1)[0] == p and whole(q) and q[len(p) + 1:] not in l:
                        raise Violation('%s: listing %s leaves out %s' % (what, p, q), 'lost')
            continue
        if ok and not r[1].isfile():
            raise Violation('%s: %s is not a stream' % (what, p), 'wrong')

        def pieces():
            st = c.open(p, 'r')
            a = st.read(7)
            st.seek(len(d) // 2)
            b = st.read()
            st.seek(0)
            return bytes(a), bytes(b), bytes(size(st.read(), p))
        x = guarded('read', pieces)
        if x is not failed and ok and x != (d[:7], d[len(d) // 2:], d):
            raise Violation('%s: %s is not affected, but reads wrong' % (what, p), 'wrong')
    guarded('close', c.close)
    return True


def judge(m, data, broken, what, t):
    f = Counted(data)
    f.limit = 60 * m.reads + 20000
    why = []

    def late(*a):
        raise Endless()
    old = signal.signal(signal.SIGVTALRM, late)
    signal.setitimer(signal.ITIMER_VIRTUAL, 6)
    try:
        ok = session(f, m, broken, what, why)
    except Endless:
        raise Violation('%s: does not end within %s reads or 6 s (%d reads of %d bytes in all)' % (what, f.limit, f.reads, f.got), 'endless')
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
    if f.changed or f.getvalue() != bytes(data):
        raise Violation('%s: the file was changed (%s)' % (what, f.changed), 'changed')
    t.step()
    t.outcome('refused' if not ok else 'errors' if why else 'read')
    t.state(tuple(sorted(set(why))) if why else ('read',))


def run_links(case, t):
    """case: image, list of lists of (field, value) damaged together"""
    name, todo = case
    m = image(name)
    where = dict((n, (o, s)) for n, o, s in m.fields)
    for combo in todo:
        data = bytearray(m.data)
        for n, v in combo:
            o, s = where[n]
            data[o:o + s] = v.to_bytes(s, 'little')
        what = '%s, %s' % (name, ', '.join('%s set to %d' % (n, v) for n, v in combo))
        try:
            judge(m, data, tuple(n for n, v in combo), what, t)
        except Violation as x:
            x.case = [name, [combo]]
            raise


def links(name, size):
    def cases():
        m = image(name)
        for c in chunks(([[n, v]] for n, o, s in m.fields if not (n.startswith('difat') and int(n.split('.')[1]) not in (0, 1, 2, 60, 61, 125, 126, 127)) for v in values(m, n, o, s)), size):
            yield [name, list(c)]
    return cases


def pairs(name, size):
    """two links, each with the few most telling values"""
    def cases():
        m = image(name)
        fs = [f for f in m.fields if not f[0].startswith('header.fat') and not f[0].startswith('difat') and not f[0].endswith(('high', 'kind', 'version', 'order', 'magic', 'shift'))]

        def few(n, o, s):
            v = values(m, n, o, s)
            keep = [0, EOC, m.dirs[0]] + ([int(n[4:])] if n.startswith('fat ') else [1, 2] if n.endswith(('left', 'right', 'child')) else [])
            return [x for x in keep if x in v][:4]

        def todo():
            for i, a in enumerate(fs):
                for b in fs[i + 1:]:
                    for x in few(*a):
                        for y in few(*b):
                            yield [[a[0], x], [b[0], y]]
        for c in chunks(todo(), size):
            yield [name, list(c)]
    return cases


def run_cut(case, t):
    """case: image, lengths"""
    name, lengths = case
    m = image(name)
    for n in lengths:
        data = m.data[:n]
        present = lambda p: (m.place[p] + 1) * m.ss <= n
        try:
            judge(m, data, present, '%s cut to %d bytes' % (name, n), t)
        except Violation as x:
            x.case = [name, [n]]
            raise


def cuts(names, step):
    def cases():
        for name in names:
            n = len(image(name).data)
            ss = image(name).ss
            all_ = set(range(0, n, step)) | set(x + d for x in range(0, n + 1, ss) for d in (-1, 0, 1, 128)) | set(range(0, 600, 4))
            for c in chunks(sorted(x for x in all_ if 0 <= x < n), 60):
                yield [name, list(c)]
    return cases


# ---------------------------------------------------------------- files

_aaf = {}


def aaf_image():
    """a small file, its directory entries and table entries"""
    if not _aaf:
        p = aafrig.newpath()
        with aaf2.open(p, 'w', sector_size=512) as f:
            m = f.create.SourceMob('m')
            m.descriptor = f.create.TapeDescriptor()
            f.content.mobs.append(m)
            s = m.create_timeline_slot(25)
            s.segment = f.create.SourceClip(media_kind='picture', length=5)
            m.comments['a'] = 'b'
        with open(p, 'rb') as g:
            _aaf['data'] = g.read()
        os.unlink(p)
    return _aaf['data']


def aaf_fields():
    d = aaf_image()
    c = cfbref.parse(d)
    ss = c.ss
    (ndir, nfat, dir_start, _, _, mf_start, nmf) = struct.unpack('<7I', d[40:68])
    fats = struct.unpack('<109I', d[76:512])[:nfat]
    out = []
    for i, v in enumerate(c.fat):
        if v != FREE:
            out.append((fats[i // 128] * 512 + 512 + i % 128 * 4, v))
    chain = [dir_start]
    while c.fat[chain[-1]] != EOC:
        chain.append(c.fat[chain[-1]])
    for s in chain:
        for k in range(4):
            for o in (68, 72, 76, 116, 120):
                pos = (s + 1) * ss + k * 128 + o
                out.append((pos, struct.unpack('<I', d[pos:pos + 4])[0]))
    return out, c


def run_aaf(case, t):
    """case: list of (position, value)"""
    d = aaf_image()
    for pos, v in case:
        data = bytearray(d)
        data[pos:pos + 4] = struct.pack('<I', v)
        f = Counted(data)
        f.limit = 4000000
        what = 'file with %d at %d' % (v, pos)

        def late(*a):
            raise Endless()
        old = signal.signal(signal.SIGVTALRM, late)
        signal.setitimer(signal.ITIMER_VIRTUAL, 20)
        try:
            try:
                read_aaf(f)
                t.outcome('read')
            except Exception as e:
                if bad(e):
                    raise Violation('%s: ends with %s: %s [%s]' % (what, type(e).__name__, str(e)[:100], tb_tail(e)), 'unbounded', case=[[pos, v]])
                t.outcome(type(e).__name__)
        except Endless:
            raise Violation('%s: does not end' % what, 'endless', case=[[pos, v]])
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)
            aaf2.file.io = REAL_IO
        if f.changed:
            raise Violation('%s: the file was changed' % what, 'changed', case=[[pos, v]])
        t.step()


import aaf2.file
REAL_IO = aaf2.file.io


class Shim(object):
    BytesIO = REAL_IO.BytesIO
    DEFAULT_BUFFER_SIZE = REAL_IO.DEFAULT_BUFFER_SIZE

    def __init__(self, f):
        self.f = f

    def open(self, *a, **kw):
        return self.f


def read_aaf(raw):
    aaf2.file.io = Shim(raw)
    with aaf2.open('x', 'r') as f:
        n = 0
        for obj, streams in f.root.walk_references():
            n += 1
            for p in obj.properties():
                p.value
            if n > 20000:
                raise Violation('walking the objects does not end', 'endless')


def aaf_cases(size):
    def cases():
        fields, c = aaf_fields()

        def todo():
            nent = c.dir_slots
            for pos, old in fields:
                for v in (0, 1, EOC, old + 1, old - 1, nent // 2, len(c.fat) - 1):
                    if v >= 0 and v != old:
                        yield [pos, v]
        for x in chunks(todo(), size):
            yield list(x)
    return cases


def spaces(tier):
    full = tier != 'quick'
    names = list(IMAGES) if full else ['plain 512', 'plain 4096', 'long list', 'deep 512', 'wide 512']
    out = []
    for n in names:
        out.append(Space('links, %s' % n, links(n, 100), run_links, 'every link with every value of interest', cpu_limit=200))
    out.append(Space('cut files', cuts(names, 512 if not full else 64), run_cut, 'cut at every sector, around it and within the header', cpu_limit=200))
    if full:
        out.append(Space('pairs of links, plain 512', pairs('plain 512', 400), run_links, 'two links at a time', cpu_limit=600))
        out.append(Space('pairs of links, deep 512', pairs('deep 512', 400), run_links, 'two links at a time', cpu_limit=600))
        out.append(Space('files', aaf_cases(20), run_aaf, 'every used table entry and every directory link of a file with 7 values', cpu_limit=600))
    return out
