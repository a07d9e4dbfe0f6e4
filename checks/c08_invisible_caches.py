"""C08: results never depend on cache evictions, buffering or object lifetime.

The cache itself is run through every word of operations against a plain map;
container histories run under every combination of cache capacity, entry
lifetime and kind of underlying file, next to the model, and must leave the same
bytes; project histories run under every combination of cache capacity, object
lifetime (everything kept, everything dropped and collected after every step,
handles kept from the first use) and buffering, and must give the same results
and the same stored objects."""
import gc, io, os
import aaf2
import aaf2.cache
from aaf2 import cfb as cfbmod
from lib import aafrig, aafref, util, cfbrig
from lib.cfbrig import Rig
from lib.mc import Space, Violation, words, exc_site, tb_tail
from checks import c10_sessions as proj

LEVEL = 'model_checking'
ASSUMPTIONS = ['caches are given their capacity when they are made (the capacity argument of LRUCacheDict)',
               'a handle on a property that was unset when it was fetched is not kept across other edits of that property']

_orig = aaf2.cache.LRUCacheDict.__init__


class capacity(object):
    """every cache made inside has the given capacity"""
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        n = self.n
        if n is not None:
            aaf2.cache.LRUCacheDict.__init__ = lambda self, size=None: _orig(self, n)

    def __exit__(self, *a):
        aaf2.cache.LRUCacheDict.__init__ = _orig


# ---------------------------------------------------------------- the cache

def run_lru(case, t):
    """case: capacity, first operation; every continuation"""
    cap, first, n = case
    keys = 'abc' if cap < 3 else 'abcde'
    alpha = [o + k for k in keys for o in 'sgdi']
    for w in words(alpha, n - 1):
        word = (first,) + tuple(w)
        c = aaf2.cache.LRUCacheDict(cap)
        m = {}
        v = 0
        try:
            for op in word:
                k = op[1]
                t.step()
                if op[0] == 's':
                    v += 1
                    c[k] = v
                    m[k] = v
                    if k not in c or c.get(k) != v:
                        raise Violation('%s: the entry just stored is not there' % '-'.join(word), 'lru')
                elif op[0] == 'g':
                    x = c.get(k, 'none')
                    if x != 'none' and x != m.get(k):
                        raise Violation('%s: %s gives %r, stored %r' % ('-'.join(word), k, x, m.get(k)), 'lru')
                elif op[0] == 'd':
                    if k in c:
                        if k not in m:
                            raise Violation('%s: %s is present after removal' % ('-'.join(word), k), 'lru')
                        del c[k]
                    m.pop(k, None)
                    if k in c:
                        raise Violation('%s: %s is still there after removal' % ('-'.join(word), k), 'lru')
                else:
                    try:
                        x = c[k]
                    except KeyError:
                        if k in c:
                            raise Violation('%s: %s is in the cache but cannot be read' % ('-'.join(word), k), 'lru')
                    else:
                        if x != m.get(k) or k not in c:
                            raise Violation('%s: %s gives %r, stored %r' % ('-'.join(word), k, x, m.get(k)), 'lru')
            held = [k for k in keys if k in c]
            if len(held) > cap + 1:
                raise Violation('%s: a cache of %d holds %d entries' % ('-'.join(word), cap, len(held)), 'lru')
            for k in held:
                if c.get(k) != m.get(k):
                    raise Violation('%s: %s gives %r, stored %r' % ('-'.join(word), k, c.get(k), m.get(k)), 'lru')
            t.state((cap, tuple(held)))
        except Violation as e:
            e.case = [cap, word[0], 1] if len(word) == 1 else case
            raise


def lru_cases(caps, n):
    def gen():
        for cap in caps:
            for k in 'abc' if cap < 3 else 'abcde':
                for o in 'sgdi':
                    yield [cap, o + k, n if cap < 3 else n - 1]
    return gen


# ---------------------------------------------------------------- containers

class Real(object):
    """a real file that can be read back after closing"""
    def __init__(self, data, buffering):
        self.path = util.spath('c08-%d-%d' % (os.getpid(), next(_n)))
        with open(self.path, 'wb') as f:
            f.write(data)
        self.f = io.open(self.path, 'r+b', buffering=buffering)
        for n in ('read', 'write', 'seek', 'tell', 'truncate', 'readinto'):
            setattr(self, n, getattr(self.f, n))
        self.mode = 'rb+'

    def flush(self):
        self.f.flush()

    def fileno(self):
        return self.f.fileno()

    def getvalue(self):
        self.f.flush()
        with open(self.path, 'rb') as f:
            return f.read()

    def close(self):
        self.f.close()

    def __del__(self):
        try:
            self.f.close()
            os.unlink(self.path)
        except Exception:
            pass


import itertools
_n = itertools.count()
class Mem(io.BytesIO):
    """BytesIO whose truncate can extend, as a file's does"""
    def truncate(self, size=None):
        pos = self.tell()
        size = pos if size is None else size
        have = len(self.getbuffer())
        if size > have:
            self.seek(size - 1)
            self.write(b'\0')
            self.seek(pos)
        return super(Mem, self).truncate(size)


# a BytesIO is by design always a new container, so it only holds the first session
MEDIA = {'mem': util.MemFile, 'bytesio': lambda d=b'': util.MemFile(d) if d else Mem(), 'raw': lambda d=b'': Real(d, 0), 'buffered': lambda d=b'': Real(d, io.DEFAULT_BUFFER_SIZE), 'tiny': lambda d=b'': Real(d, 7)}


class CRig(Rig):
    def __init__(self, cap, life, medium, **kw):
        self.kept = []
        self.cap, self.life = cap, life
        self.mem = MEDIA[medium]
        super(CRig, self).__init__(512, mem=MEDIA[medium], **kw)

    def step(self, op):
        r = super(CRig, self).step(op)
        if self.life == 'keep':
            self.kept.extend(x for root, d, f in self.cfb.walk() for x in list(d) + list(f))
        elif self.life == 'collect':
            gc.collect(0)
        return r

    def reopen(self):
        self.kept = []
        return super(CRig, self).reopen()


START = [['mds', '/a/a/x'], ['o', '/a/a/s', 'w'], ['w', '/a/a/s', 100], ['o', '/a/b', 'w'], ['w', '/a/b', 5000], ['md', '/b']] + \
        [['touch', '/b/%s' % n] for n in ('k', 'kk', 'z', '_z', 'aa', 'bb', 'cc', 'dd')] + [['o', '/b/k', 'w'], ['w', '/b/k', 700], ['o', '/l', 'w'], ['w', '/l', 4096]]
CALPHA = [['o', '/a/b', 'r'], ['r', '/a/b', -1], ['o', '/a/b', 'rw'], ['w', '/a/b', 900], ['s', '/a/b', 300, 0], ['t', '/a/b', None], ['o', '/b/k', 'rw'], ['w', '/b/k', 4000],
          ['o', '/b/z', 'w'], ['w', '/b/z', 70], ['rm', '/b/kk'], ['rmt', '/a'], ['rmte', '/a/a'], ['rme', '/b/z'], ['rme', '/b/_z'], ['mv', '/a/a', '/b/a'], ['mv', '/b', '/a/b2'], ['mv', '/l', '/b/l'],
          ['md', '/b/new'], ['touch', '/a/a/t'], ['cls', '/a', 1], ['meta', '/b', 'flags', 7], ['rm', '/l'], ['o', '/n', 'w'], ['w', '/n', 600], ['R'], ['O']]


def crun(word, conf, t, pre):
    cap, life, medium = conf
    with capacity(cap):
        r = CRig(cap, life, medium, probe='end', tally=t)
        for op in START:
            r.step(op)
        if pre:
            r.reopen()
        for op in word:
            if op[0] == 'O':
                r.observe()
            else:
                r.step(op)
        r.observe()
        return r.finish(state=False)


def run_container(case, t):
    """case: histories, configurations"""
    for pre, word in case[0]:
        first = None
        for conf in case[1]:
            try:
                data = crun(word, conf, t, pre)
            except Violation as e:
                e.msg = '%s with cache %s, objects %s, %s file: %s' % (word, conf[0], conf[1], conf[2], e.msg)
                e.case = [[[pre, word]], [conf]]
                raise
            except Exception as e:
                raise Violation('%s with cache %s, objects %s, %s file: %s: %s [%s]' % (word, conf[0], conf[1], conf[2], type(e).__name__, e, tb_tail(e)), 'exc:%s@%s' % (type(e).__name__, exc_site(e)), case=[[[pre, word]], [conf]])
            if first is None:
                first = data
                t.state(data)
            elif data != first:
                raise Violation('%s: cache %s, objects %s, %s file gives other bytes than %s (%s)' % (word, conf[0], conf[1], conf[2], case[1][0], cfbrig.diff(data, first)), 'bytes', case=[[[pre, word]], [case[1][0], conf]])


def container_cases(n, confs, batch, pres):
    def gen():
        out = []
        for k in range(1, n + 1):
            for w in words(CALPHA, k, k):
                if w[-1][0] in 'OR':
                    continue
                for pre in pres:
                    out.append([pre, list(w)])
        for i in range(0, len(out), batch):
            yield [out[i:i + batch], confs]
    return gen


def rewrite_cases(confs, batch, pairs):
    """overwrites of what has been read, with everything read again after each"""
    def gen():
        out = []
        for path, size, at in (('/l', 4096, (0, 300, 511, 512, 1000, 1024, 3584)), ('/b/k', 700, (0, 63, 64, 300, 448, 512, 640))):
            ws = [[['s', path, p, 0], ['w', path, n]] for p in at for n in (1, 64, 512, 513, 1100) if path == '/l' or n != 1100]
            ws += [[['s', path, p, 0], ['t', path, None], ['w', path, 700]] for p in at[2:5]]
            look = [['s', path, 0, 0], ['r', path, -1]]
            some = [['s', path, at[4], 0], ['r', path, 30]]
            for a in ws:
                for before in (look, some, []):
                    out.append([True, [['o', path, 'rw']] + before + a + look])
            if pairs:
                for a in ws[::pairs]:
                    for b in ws[::pairs]:
                        out.append([True, [['o', path, 'rw']] + look + a + look + b + look])
                        out.append([True, [['o', path, 'rw']] + some + a + some + b + look])
        for i in range(0, len(out), batch):
            yield [out[i:i + batch], confs]
    return gen


# ---------------------------------------------------------------- projects

class Handles(object):
    def __init__(self):
        self.d = {}


def pplay(ws, sep, conf, t):
    cap, life, buf = conf
    kept = []
    comp0 = proj.comp
    handles = {}

    def comp(c, i):
        if i not in handles:
            handles[i] = comp0(c, i)
        return handles[i]
    out = []
    try:
        with capacity(cap):
            c = proj.Cells(len(ws))
            if buf is not None:
                c.f.f.close()
                c.f = aaf2.open(c.path, 'r+', buffering=buf)
            try:
                if life == 'handles':
                    proj.comp = comp
                for i in range(len(ws)):
                    proj.comp(c, i)
                n = max(map(len, ws))
                for k in range(n):
                    for i, w in enumerate(ws):
                        if k < len(w):
                            if w[k] == 'R':
                                out.append((i, k, read(c, i)))
                            else:
                                proj.OPS[w[k]](c, i, k)
                            t.step()
                            if life == 'keep':
                                kept.extend(everything(proj.comp(c, i)))
                    if life == 'collect':
                        gc.collect()
                    if k < n - 1:
                        if sep[k] == 's':
                            c.f.save()
                        elif sep[k] == 'r':
                            c.f.close()
                            handles.clear()
                            kept[:] = []
                            c.f = aaf2.open(c.path, 'r+', **({} if buf is None else {'buffering': buf}))
                live = aafrig.canon_file(c.f, skip=(aafrig.METADICT,))
                c.f.close()
                a = aafrig.load(c.path)
                a.check_weak()
                if a.errors:
                    raise Violation('stored file: %s' % a.errors[:3], 'stored')
                stored = (a.root[0], {k: v for k, v in a.root[1].items() if k != aafrig.METADICT})
                if live != stored:
                    raise Violation('stored file differs from the live objects: %s' % '; '.join(aafref.diff(live, stored)), 'stored')
                with aaf2.open(c.path, 'r', **({} if buf is None else {'buffering': buf})) as f:
                    again = aafrig.canon_file(f, skip=(aafrig.METADICT,))
                    if again != live:
                        raise Violation('reopened objects differ: %s' % '; '.join(aafref.diff(live, again)), 'reopen')
                return proj.norm(stored), out
            finally:
                try:
                    c.f.f.close()
                except Exception:
                    pass
                os.unlink(c.path)
    finally:
        proj.comp = comp0


def everything(o):
    return [x for x, s in o.walk_references()]


def read(c, i):
    m = proj.comp(c, i)
    out = []
    for s in m.slots:
        g = s.segment
        out.append((s.slot_id, s.length, type(g).__name__))
        if type(g).__name__ == 'Sequence':
            v = g.components
            n = len(v)
            for j in list(range(n))[::-1] + list(range(n)):
                out.append((j, type(v[j]).__name__, v[j].length, v[j].media_kind))
            out.append([p[:2] for p in g.positions()])
    out.append([(k, v) for k, v in m.comments.items()])
    out.append(sorted(str(x.mob_id) for x in c.f.content.mobs if (x.mob_id.int & ((1 << 128) - 1)) >> 6 == (m.mob_id.int & ((1 << 128) - 1)) >> 6))
    e = c.f.content.essencedata.get(proj.mid(i, 3))
    if e is not None:
        s = e.open('r')
        out.append(bytes(s.read(50)))
        s.seek(-10, 2)
        out.append(bytes(s.read()))
    out.append(proj.norm(aafrig.canon(m)) and None)
    return out


def run_projects(case, t):
    ws, seps, confs = case
    for sep in seps:
        first = None
        for conf in confs:
            try:
                got = pplay(ws, sep, conf, t)
            except Exception as e:
                if len(ws) > 1:
                    for w in ws:
                        run_projects([[w], [sep], [conf]], t)
                if isinstance(e, Violation):
                    e.msg = '%s, %s between, cache %s, objects %s, buffering %s: %s' % (ws[:3], sep, conf[0], conf[1], conf[2], e.msg)
                    e.case = [ws, [sep], [conf]]
                    raise
                raise Violation('%s, %s between, cache %s, objects %s, buffering %s: %s: %s [%s]' % (ws[:3], sep, conf[0], conf[1], conf[2], type(e).__name__, e, tb_tail(e)), 'exc:%s@%s' % (type(e).__name__, exc_site(e)), case=[ws, [sep], [conf]])
            t.state((tuple(ws), sep, conf[0], conf[1]))
            if first is None:
                first = got
                continue
            if got != first:
                if len(ws) > 1:
                    for w in ws:
                        run_projects([[w], [sep], [confs[0], conf]], t)
                what = [(x, y) for x, y in zip(first[1], got[1]) if x != y][:1] if first[1] != got[1] else aafref.diff(first[0], got[0])
                raise Violation('%s, %s between: cache %s, objects %s, buffering %s differs from %s: %s' % (ws[:3], sep, conf[0], conf[1], conf[2], confs[0], str(what)[:500]), 'differs', case=[ws, [sep], [confs[0], conf]])


def project_cases(n, alphabet, seps, confs, batch):
    def gen():
        out = [''.join(w) for w in words(alphabet, n, n)]
        for i in range(0, len(out), batch):
            yield [out[i:i + batch], seps, confs]
    return gen


# ---------------------------------------------------------------- reading a large file through small caches

def big_image():
    if 'big' not in _img:
        p = aafrig.writefile(aafrig.newpath(), aafrig.base_image())
        with aaf2.open(p, 'r+') as f:
            for i in range(8):
                m = proj.mk(f, 'CompositionMob', i, 1, 'comp%d' % i)
                f.content.mobs.append(m)
                for j in range(3):
                    s = m.create_sound_slot(25)
                    for k in range(6):
                        s.segment.components.append(f.create.SourceClip(k, 5 + k, proj.mid((i + 1) % 8, 1), 1, 'sound'))
                m.comments['i'] = i
                e = f.create.EssenceData()
                e.mob_id = proj.mid(i, 1)
                f.content.essencedata.append(e)
                e.open('w').write(util.pattern(i, 3000 + 700 * i))
        _img['big'] = aafrig.readfile(p)
        os.unlink(p)
    return _img['big']


_img = {}


def run_reading(case, t):
    """case: order of visiting, capacity, lifetime, buffering, mode"""
    order, cap, life, buf, mode = case
    path = aafrig.writefile(aafrig.newpath(), big_image())
    try:
        a = aafrig.load(path)
        stored = (a.root[0], {k: v for k, v in a.root[1].items() if k != aafrig.METADICT})
        kept = []
        with capacity(cap):
            with aaf2.open(path, mode, buffering=buf) as f:
                ids = [proj.mid(i, 1) for i in range(8)]
                for rnd in range(2):
                    for i in order:
                        m = f.content.mobs[ids[i]]
                        for s in (list(m.slots) if i % 2 else list(m.slots)[::-1]):
                            v = s.segment.components
                            for j in (5, 0, -1, 3):
                                x = v[j]
                                t.step()
                                jj = j % 6
                                if (x.start, x.length, x.mob_id) != (jj, 5 + jj, ids[(i + 1) % 8]):
                                    raise Violation('component %d of mob %d reads %s' % (j, i, (x.start, x.length, x.mob_id)), 'read')
                                if x.mob is not f.content.mobs[ids[(i + 1) % 8]] or x.slot is not x.mob.slots[0]:
                                    raise Violation('source of component %d of mob %d is another object each time' % (j, i), 'identity')
                                if life == 'keep':
                                    kept.append((x, v, m))
                            if len(v) != 6 or [y.length for y in v] != list(range(5, 11)):
                                raise Violation('components of mob %d read %s' % (i, [y.length for y in v]), 'read')
                        e = f.content.essencedata[ids[i]]
                        want = util.pattern(i, 3000 + 700 * i)
                        st = e.open('r')
                        for pos, n in ((0, 10), (2990, 20), (511, 2), (100, -1)):
                            st.seek(pos)
                            if bytes(st.read(n)) != bytes(want[pos:] if n < 0 else want[pos:pos + n]):
                                raise Violation('essence %d at %d reads other bytes' % (i, pos), 'read')
                        if life == 'collect':
                            gc.collect(1)
                now = aafrig.canon_file(f, skip=(aafrig.METADICT,))
                if now != stored:
                    raise Violation('objects read differ from the stored ones: %s' % '; '.join(aafref.diff(stored, now)), 'read')
        b = aafrig.load(path)
        s2 = (b.root[0], {k: v for k, v in b.root[1].items() if k != aafrig.METADICT})
        if s2 != stored:
            raise Violation('reading changed the file: %s' % '; '.join(aafref.diff(stored, s2)), 'changed')
        t.state(tuple(map(str, case)))
    finally:
        os.unlink(path)


def reading_cases(full):
    def gen():
        orders = [list(range(8)), list(range(8))[::-1], [0, 4, 1, 5, 2, 6, 3, 7], [3, 3, 0, 7, 0, 7]]
        for o in orders if full else orders[1:3]:
            for cap in (1, 2, 3, 7, 512) if full else (1, 3, 512):
                for life in ('keep', 'drop', 'collect') if full else ('keep', 'drop'):
                    for buf in (0, 1 << 13, 7) if full else (0, 1 << 13):
                        for mode in ('r', 'r+'):
                            yield [o, cap, life, buf, mode]
    return gen


CONF_Q = [[512, 'keep', 'mem'], [1, 'drop', 'mem'], [2, 'keep', 'bytesio'], [3, 'collect', 'raw']]
CONF_T = [[c, l, 'mem'] for c in (512, 1, 2, 3, 5) for l in ('keep', 'drop', 'collect')] + [[1, 'drop', m] for m in ('bytesio', 'raw', 'buffered', 'tiny')] + [[512, 'keep', m] for m in ('bytesio', 'raw', 'buffered')]
PCONF_Q = [[512, 'keep', None], [1, 'drop', 0], [2, 'collect', None], [1, 'handles', None]]
PCONF_T = [[c, l, b] for c, b in ((512, None), (3, 0), (1, None), (4, 7), (30, 1 << 16)) for l in ('keep', 'drop', 'collect', 'handles')]


def spaces(tier):
    if tier == 'quick':
        return [
            Space('lru', lru_cases((0, 1, 2, 4), 4), run_lru, 'every word of cache operations against a map', cpu_limit=120),
            Space('container', container_cases(2, CONF_Q, 25, [False, True]), run_container, 'every pair of container operations, fresh or reopened, x cache capacity, lifetime, kind of file', cpu_limit=240),
            Space('rewrites', rewrite_cases(CONF_Q, 25, 2), run_container, 'streams read, overwritten once or twice in every alignment and read again x cache capacity, lifetime, kind of file', cpu_limit=240),
            Space('projects', project_cases(2, 'maipncdrueklyzwR', ['s', 'r'], PCONF_Q, 32), run_projects, 'every pair of project edits and reads x save or session between x cache, lifetime, buffering', cpu_limit=240),
            Space('reading', reading_cases(False), run_reading, 'visiting orders x capacity x lifetime x buffering x mode', cpu_limit=120),
        ]
    return [
        Space('lru', lru_cases((0, 1, 2, 3, 4), 6), run_lru, 'every word of cache operations against a map', cpu_limit=900),
        Space('container', container_cases(2, CONF_T, 25, [False, True]), run_container, 'every pair of container operations, fresh or reopened, x cache capacity, lifetime, kind of file', cpu_limit=900),
        Space('container3', container_cases(3, CONF_Q, 25, [True]), run_container, 'every triple of container operations', cpu_limit=900),
        Space('rewrites', rewrite_cases(CONF_T, 25, 1), run_container, 'streams read, overwritten once or twice in every alignment and read again x cache capacity, lifetime, kind of file', cpu_limit=900),
        Space('projects', project_cases(2, 'maipncdrueklyzwRtx', ['.', 's', 'r'], PCONF_T, 36), run_projects, 'every pair of project edits and reads x session between x all configurations', cpu_limit=900),
        Space('projects3', project_cases(3, 'aipncekzR', ['ss', 'sr'], PCONF_Q, 81), run_projects, 'every triple of project edits and reads', cpu_limit=900),
        Space('reading', reading_cases(True), run_reading, 'visiting orders x capacity x lifetime x buffering x mode', cpu_limit=240),
    ]
