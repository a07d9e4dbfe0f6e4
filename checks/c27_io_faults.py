"""C27: an input/output failure is reported and never turns into wrong data.

Sessions (open, read, create, edit, save, close; containers and AAF files) run on an
underlying file that counts its operations.  At every single read, write, seek, tell,
truncate, flush and close the process is forked and the operation fails in the child:
with nothing done, or with half of a write done.  The call in which it fails must raise.
A reading session then tries again and goes on: everything read must be right.  A writing
session is left: its file must be closed; where the failure was in save or close, calling
it again and succeeding must give a complete file."""
import io, os, sys, zlib, hashlib, json
import aaf2, aaf2.file, aaf2.cfb
from aaf2.mobid import MobID
from lib import aafref, aafrig, cfbref, util
from lib.mc import Space, Violation, exc_site, tb_tail

LEVEL = 'model_checking'
ASSUMPTIONS = ['one operation of the underlying file fails with OSError, nothing or half of a write done', 'a read that succeeds gives all the bytes asked for unless the file ends']


PARTS = 8


class Fault(OSError):
    pass


class FaultFile(object):
    """file whose operations number lo..hi-1 each fail once, in a forked child"""
    def __init__(self, data, lo, hi, kinds, plan):
        self.b = io.BytesIO(bytes(data))
        self.n, self.lo, self.hi, self.kinds, self.plan = 0, lo, hi, kinds, plan
        self.closed = False
        self.sites = {} if plan.times else None

    def op(self, name, partial=None):
        k = self.n
        self.n += 1
        if self.plan.child or not (self.lo <= k < self.hi):
            return
        if self.sites is not None:
            # only the first times each distinct stack of calls does this
            fr, h = sys._getframe(1), []
            while fr is not None and fr.f_code is not RUN:
                h.append((fr.f_code, fr.f_lineno))
                fr = fr.f_back
            h = (name, tuple(h))
            c = self.sites[h] = self.sites.get(h, 0) + 1
            if c > self.plan.times or zlib.crc32(repr([(a.co_name, b) for a, b in h[1]]).encode()) % PARTS != self.plan.part:
                return
        for kind in self.kinds:
            if kind == 'part' and partial is None:
                continue
            if self.plan.fork(k, name, kind):
                if kind == 'part':
                    partial()
                raise Fault('injected: %s, operation %d' % (name, k))

    def read(self, *a):
        self.op('read')
        return self.b.read(*a)

    def readinto(self, x):
        self.op('read')
        return self.b.readinto(x)

    def write(self, d):
        self.op('write', lambda: self.b.write(bytes(d)[:len(d) // 2]) if len(d) > 1 else None)
        return self.b.write(d)

    def seek(self, *a):
        self.op('seek')
        return self.b.seek(*a)

    def tell(self):
        self.op('tell')
        return self.b.tell()

    def truncate(self, size=None):
        self.op('truncate')
        if size is None:
            size = self.b.tell()
        cur = len(self.b.getbuffer())
        if size > cur:
            pos = self.b.tell()
            self.b.seek(size - 1)
            self.b.write(b'\0')
            self.b.seek(pos)
        else:
            self.b.truncate(size)
        return size

    def flush(self):
        self.op('flush')

    def close(self):
        self.closed = True
        self.op('close')

    def getvalue(self):
        return self.b.getvalue()


class Plan(object):
    """the parent's side: what the children found"""
    def __init__(self, t, times=0, part=0):
        self.times, self.part = times, part
        self.child = None
        self.fired = False
        self.t = t
        self.bad = []

    def fork(self, k, name, kind):
        """True in the child"""
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            self.child = (k, name, kind, w)
            self.fired = True
            sys.stdout = open(os.devnull, 'w')
            return True
        os.close(w)
        out = b''
        while True:
            x = os.read(r, 65536)
            if not x:
                break
            out += x
        os.close(r)
        st = os.waitpid(pid, 0)[1]
        self.t.step()
        try:
            res = json.loads(out.decode())
        except ValueError:
            res = ['child', 'ended with status %s, %r' % (st, out[:200]), '']
        self.t.state((name, kind, res[2]))
        self.t.outcome(res[2])
        if res[0]:
            self.bad.append((k, name, kind, res[0], res[1]))
            if len(self.bad) > 3:
                raise Enough()
        return False

    def report(self, sig, msg, where):
        os.write(self.child[3], json.dumps([sig, msg[:1500], where]).encode())
        os._exit(0)


class Enough(Exception):
    pass


class Shim(object):
    """stands in for the io module of aaf2.file: open() gives the fault file"""
    BytesIO = io.BytesIO
    DEFAULT_BUFFER_SIZE = io.DEFAULT_BUFFER_SIZE

    def __init__(self, ff):
        self.ff = ff

    def open(self, path, mode, buffering=-1):
        if path != 'fault':
            return io.open(path, mode, buffering=buffering)
        if 'w' in mode:
            self.ff.b = io.BytesIO()
        else:
            self.ff.b.seek(0)
        self.ff.closed = False
        return self.ff


# ---------------------------------------------------------------- sessions: lists of (name, function of a state dict)

def digest(x):
    return hashlib.blake2b(x, digest_size=8).hexdigest()


def mid(i):
    return MobID(int=0x060a2b340101010501010f2013000000 << 128 | 0xc270000 | i)


def aaf_read(full):
    def op(s):
        s['f'] = aaf2.open('fault', s.get('mode', 'r'))

    def header(s):
        f = s['f']
        return [str(f.header['OperationalPattern'].value), f.header['ByteOrder'].value, len(list(f.header['IdentificationList'].value))]

    def mobs(s):
        return sorted((str(m.mob_id), type(m).__name__, m.name) for m in s['f'].content.mobs)

    def slots(s):
        out = []
        for m in s['f'].content.mobs:
            for sl in m.slots:
                out.append((str(m.mob_id), sl.slot_id, str(sl.edit_rate), type(sl.segment).__name__, sl.segment.length, sl.media_kind))
            out.append(sorted(m.comments.items()))
        return sorted(map(str, out))

    def essence(s):
        out = []
        for e in s['f'].content.essencedata:
            st = e.open('r')
            a = st.read(100)
            st.seek(-70, 2)
            b = st.read()
            st.seek(0)
            c = st.read()
            out.append((str(e.mob_id), digest(bytes(a)), digest(bytes(b)), len(c), digest(bytes(c))))
        return sorted(out)

    def refs(s):
        out = []
        for m in s['f'].content.mobs:
            for sl in m.slots:
                for x in [sl.segment] + list(sl.segment.components if hasattr(sl.segment, 'components') else []):
                    out.append((x.media_kind, str(getattr(x, 'mob', None) and x.mob.mob_id)))
            if m.get('EssenceDescription', None):
                d = m.descriptor
                c = d.get('ContainerFormat', None)
                out.append(c and c.value.name)
        return sorted(map(str, out))

    def defs(s):
        d = s['f'].dictionary
        return [d.lookup_datadef('picture').name, d.lookup_containerdef('AAF').name, len(list(d['OperationDefinitions'].value or [])), s['f'].metadict.lookup_classdef('Mob').class_name]

    def lookup(s):
        return [s['f'].content.mobs.get(mid(i)) is not None and s['f'].content.mobs[mid(i)].name for i in (1, 2, 9)]

    def close(s):
        s['f'].close()
    return [('open', op), ('header', header), ('lookup', lookup), ('mobs', mobs), ('slots', slots), ('essence', essence), ('refs', refs), ('definitions', defs), ('mobs again', mobs), ('essence again', essence), ('close', close)]


def build(f):
    """content of the sample file"""
    m = f.create.MasterMob('master é')
    m.mob_id = mid(1)
    f.content.mobs.append(m)
    s = f.create.SourceMob('source')
    s.mob_id = mid(2)
    s.descriptor = f.create.PCMDescriptor()
    for k, v in (('Channels', 1), ('BlockAlign', 2), ('SampleRate', 48000), ('AverageBPS', 96000), ('QuantizationBits', 16), ('AudioSamplingRate', 48000), ('Length', 10)):
        s.descriptor[k].value = v
    s.descriptor['ContainerFormat'].value = f.dictionary.lookup_containerdef('AAF')
    f.content.mobs.append(s)
    e, slot = s.create_essence(48000, 'sound')
    slot.segment.length = 10
    st = e.open('w')
    st.write(util.pat(5, 9000))
    sl = m.create_empty_sequence_slot(25, media_kind='sound')
    sl.segment.components.append(s.create_source_clip(slot.slot_id, 0, 10))
    m.comments['a'] = 'text'
    m.comments['b'] = 7


def aaf_write(steps_after=()):
    def op(s):
        s['f'] = aaf2.open('fault', s.get('mode', 'w'), sector_size=s.get('sector', 4096))

    def make(s):
        build(s['f'])

    def big(s):
        f = s['f']
        m = f.create.SourceMob('big')
        m.mob_id = mid(3)
        m.descriptor = f.create.TapeDescriptor()
        f.content.mobs.append(m)
        e, slot = m.create_essence(25, 'picture')
        st = e.open('w')
        for i in range(4):
            st.write(util.pat(i, 5000))
        st.seek(3000)
        st.write(b'x' * 2000)
        st.truncate(15000)

    def edit(s):
        f = s['f']
        m = f.content.mobs[mid(1)]
        m.name = 'renamed ' * 9
        m.comments['a'] = 'other text'
        m.comments['c'] = 'third'
        del f.content.mobs[mid(2)].descriptor['ContainerFormat']

    def remove(s):
        f = s['f']
        f.content.mobs.pop(mid(2))
        f.content.essencedata.pop(mid(2))

    def readback(s):
        f = s['f']
        return [m.name for m in f.content.mobs], [len(e.open('r').read()) for e in f.content.essencedata]

    def save(s):
        s['f'].save()

    def close(s):
        s['f'].close()
    def leave(s):
        s['f'].__exit__(None, None, None)
    d = dict(leave=leave, make=make, big=big, edit=edit, remove=remove, readback=readback, save=save, close=close)
    return [('open', op)] + [(n, d[n]) for n in steps_after]


def cfb_read(full):
    def op(s):
        s['c'] = aaf2.cfb.CompoundFileBinary(s['ff'], s.get('mode', 'rb'))

    def walk(s):
        return [(p, sorted(e.name for e in st), sorted(e.name for e in sm)) for p, st, sm in ((x[0].path(), x[1], x[2]) for x in s['c'].walk())]

    def names(s):
        c = s['c']
        return [sorted(e.name for e in c.listdir('/')), sorted(e.name for e in c.listdir('/d')), [c.exists(p) for p in ('/', '/d', '/d/n3', '/none', '/d/none')]]

    def attrs(s):
        c = s['c']
        return [(str(c.find('/d').class_id), c.find('/big').byte_size, c.find('/d/n3').isfile())]

    def streams(s):
        c = s['c']
        out = []
        for p in ('/mini', '/big', '/d/n3', '/empty', '/mini2'):
            st = c.open(p, 'r')
            a = bytes(st.read(70))
            st.seek(min(10, len(a)))
            b = bytes(st.read())
            out.append((p, len(b), digest(a), digest(b)))
        return out

    def one(s):
        """several reads through one handle"""
        st = s.setdefault('st', None) or s['c'].open('/big', 'r')
        s['st'] = st
        out = []
        for off, n in ((0, 10), (500, 30), (511, 2), (4096, 600), (1, -1)):
            st.seek(off)
            out.append(digest(bytes(st.read(n))))
        return out

    def close(s):
        s['c'].close()
    return [('open', op), ('names', names), ('attributes', attrs), ('streams', streams), ('handle', one), ('handle again', one), ('walk', walk), ('streams again', streams), ('close', close)]


def cfb_write(steps):
    def op(s):
        s['c'] = aaf2.cfb.CompoundFileBinary(s['ff'], s.get('mode', 'wb+'), sector_size=s.get('sector', 512))

    def wr(path, n, off=None):
        def go(s):
            st = s['c'].open(path, 'w' if off is None else 'rw')
            if off is not None:
                st.seek(off)
            st.write(util.pat(len(path), n))
        return go

    def tr(path, n):
        def go(s):
            st = s['c'].open(path, 'rw')
            st.seek(n)
            st.truncate()
        return go
    table = {'mini': wr('/mini', 100), 'mini2': wr('/mini2', 700), 'big': wr('/big', 9000), 'grow': wr('/mini', 5000, 50), 'shrink': tr('/big', 70), 'cut': tr('/big', 5000), 'd': lambda s: s['c'].makedir('/d') and None, 'n3': wr('/d/n3', 4096),
             'empty': lambda s: s['c'].open('/empty', 'w') and None, 'over': wr('/big', 4000, 100), 'rm': lambda s: s['c'].remove('/big'), 'rmt': lambda s: s['c'].rmtree('/d'), 'mv': lambda s: s['c'].move('/mini', '/d/moved') and None,
             'touch': lambda s: [s['c'].open('/t%d' % i, 'w') for i in range(9)] and None, 'cls': lambda s: setattr(s['c'].find('/d'), 'class_id', aaf2.auid.AUID('0d010101-0101-3400-060e-2b3402060101')),
             'huge': wr('/huge', 90000), 'close': lambda s: s['c'].close(),
             'read': lambda s: bytes(s['c'].open('/mini2', 'r').read()) and bytes(s['c'].open('/big', 'r').read()) and None}
    return [('open', op)] + [(n, table[n]) for n in steps]


_images = {}


def image(what):
    if what not in _images:
        if what == 'cfb':
            m = util.MemFile()
            s = {'ff': m, 'sector': 512}
            for n, fn in cfb_write(['d', 'mini', 'mini2', 'big', 'n3', 'empty', 'touch', 'cls', 'close']):
                fn(s)
            _images[what] = m.getvalue()
        elif what == 'cfb4096':
            m = util.MemFile()
            s = {'ff': m, 'sector': 4096}
            for n, fn in cfb_write(['d', 'mini', 'mini2', 'big', 'n3', 'empty', 'touch', 'cls', 'close']):
                fn(s)
            _images[what] = m.getvalue()
        else:
            p = aafrig.newpath()
            with aaf2.open(p, 'w', sector_size=4096 if what == 'aaf' else 512) as f:
                build(f)
            with open(p, 'rb') as g:
                _images[what] = g.read()
            os.unlink(p)
    return _images[what]


W = ('open', )
SESSIONS = {
    # name: (read?, aaf?, image, state, steps)
    'container read': (True, False, 'cfb', {}, lambda: cfb_read(0)),
    'container 4096 read': (True, False, 'cfb4096', {}, lambda: cfb_read(0)),
    'container update read': (True, False, 'cfb', {'mode': 'rb+'}, lambda: cfb_read(0)[:-1]),
    'container create': (False, False, None, {}, lambda: cfb_write(['d', 'mini', 'mini2', 'big', 'n3', 'read', 'empty', 'grow', 'over', 'cut', 'shrink', 'touch', 'cls', 'mv', 'rm', 'rmt', 'close'])),
    'container create 4096': (False, False, None, {'sector': 4096}, lambda: cfb_write(['d', 'mini', 'big', 'huge', 'grow', 'shrink', 'rmt', 'close'])),
    'container update': (False, False, 'cfb', {'mode': 'rb+'}, lambda: cfb_write(['read', 'grow', 'shrink', 'mv', 'cls', 'huge', 'rm', 'rmt', 'close'])),
    'container update 4096': (False, False, 'cfb4096', {'mode': 'rb+'}, lambda: cfb_write(['cut', 'over', 'touch', 'rmt', 'close'])),
    'file read': (True, True, 'aaf', {}, lambda: aaf_read(0)),
    'file 512 read': (True, True, 'aaf512', {}, lambda: aaf_read(0)),
    'file update read': (True, True, 'aaf', {'mode': 'r+'}, lambda: aaf_read(0)[:-1]),
    'file create': (False, True, None, {}, lambda: aaf_write(['make', 'save', 'big', 'edit', 'readback', 'leave'])),
    'file create 512': (False, True, None, {'sector': 512}, lambda: aaf_write(['make', 'big', 'remove', 'close'])),
    'file update': (False, True, 'aaf', {'mode': 'r+'}, lambda: aaf_write(['edit', 'save', 'big', 'remove', 'readback', 'close'])),
    'file update 512': (False, True, 'aaf512', {'mode': 'r+'}, lambda: aaf_write(['big', 'edit', 'leave'])),
}


def content(aaf, data):
    """everything in a file that was reported complete (independent readers)"""
    if aaf:
        x = aafref.load(bytes(data))
        if x.errors:
            raise ValueError('; '.join(x.errors[:3]))
        return digest(repr(strip(x.root)).encode())
    c = cfbref.parse(bytes(data))
    if c.errors:
        raise ValueError('; '.join(c.errors[:3]))
    return digest(repr(sorted((p, e.type, bytes(e.class_id), c.streams.get(p)) for p, e in c.tree.items())).encode())


VOLATILE = (0x3b02, 0x3b06, 0x4404, 0x4405)      # times, identifications


def strip(x):
    """canonical form without the times and random ids of a session"""
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict) and isinstance(x[0], bytes):
        return (x[0], sorted((k, strip(v)) for k, v in x[1].items() if k not in VOLATILE))
    if isinstance(x, tuple):
        return tuple(strip(v) for v in x)
    if isinstance(x, dict):
        return sorted((k, strip(v)) for k, v in x.items())
    return x


def run_clean(name, lo=1, hi=0, kinds=(), plan=None, t=None):
    """one run; forks at the operations lo..hi-1"""
    read, aaf, img, state, steps = SESSIONS[name]
    plan = plan or Plan(t)
    ff = FaultFile(image(img) if img else b'', lo, hi, kinds, plan)
    s = dict(state, ff=ff)
    if aaf:
        aaf2.file.io = Shim(ff)
    out = []
    try:
        for i, (step, fn) in enumerate(steps()):
            try:
                r = fn(s)
            except Enough:
                raise
            except Exception as e:
                if not plan.child:
                    raise
                yield_child(name, plan, s, ff, i, step, fn, e, steps, read, aaf)
            if plan.child:
                plan.report('swallowed', 'step %r does not report the failure (%s, operation %d)' % (step, plan.child[1], plan.child[0]), step)
            out.append(r)
    finally:
        if plan.child:
            os._exit(3)
        if aaf:
            aaf2.file.io = io
    return ff, out, s


RUN = run_clean.__code__
EXPECT = {}


def yield_child(name, plan, s, ff, i, step, fn, e, steps, read, aaf):
    """in the child, after the failure surfaced in a step"""
    k, op, kind, w = plan.child
    where = '%s: %s' % (step, type(e).__name__)
    try:
        if read:
            want = EXPECT[name][1]
            for j, (st, fn) in enumerate(steps()):
                if j < i or (st == 'close' and j == i):
                    continue
                r = fn(s)
                if st != 'open' and json.dumps(r) != json.dumps(want[j]):
                    plan.report('wrong', 'after the failure in %r, %r gives %s, should be %s' % (step, st, str(r)[:300], str(want[j])[:300]), where)
            if aaf and 'f' in s and s.get('mode', 'r') == 'r' and step != 'close' and not ff.closed:
                plan.report('left open', 'the file is closed but its underlying file is not', where)
        elif aaf and 'f' in s:
            if step in ('save', 'close'):
                # trying again: if that succeeds the file must be complete
                again = None
                try:
                    for st, fn in steps()[i:]:
                        fn(s)
                except Exception as x:
                    again = x
                if again is None:
                    try:
                        got = content(aaf, ff.getvalue())
                    except Exception as x:
                        plan.report('incomplete', 'failed in %r; trying again is reported to succeed, but the file is broken: %s: %s' % (step, type(x).__name__, x), where)
                    if got != EXPECT[name][2]:
                        plan.report('incomplete', 'failed in %r; trying again is reported to succeed, but the file is not what was written' % step, where)
                    plan.report('', '', where + ', complete at the second try')
            # the with block is left
            if step != 'leave':
                try:
                    s['f'].__exit__(type(e), e, e.__traceback__)
                except Exception:
                    pass
            # (a failure of the closing at the end of the with block itself leaves it open, by design)
            if step != 'leave' and not ff.closed:
                plan.report('left open', 'after a failure in %r the underlying file stays open when the file is left' % step, where)
        elif not aaf and 'c' in s and step == 'close':
            again = None
            try:
                fn(s)
            except Exception as x:
                again = x
            if again is None:
                try:
                    got = content(aaf, ff.getvalue())
                except Exception as x:
                    plan.report('incomplete', 'failed in %r; trying again is reported to succeed, but the container is broken: %s: %s' % (step, type(x).__name__, x), where)
                if got != EXPECT[name][2]:
                    plan.report('incomplete', 'failed in %r; trying again is reported to succeed, but the container is not what was written' % step, where)
                plan.report('', '', where + ', complete at the second try')
        plan.report('', '', where)
    except Exception as x:
        plan.report('after', 'after the failure in %r: %s: %s [%s]' % (step, type(x).__name__, x, tb_tail(x)), where)


def expect(name):
    if name not in EXPECT:
        read, aaf, img, state, steps = SESSIONS[name]
        ff, out, s = run_clean(name)
        EXPECT[name] = (ff.n, out, None if read else content(aaf, ff.getvalue()))
    return EXPECT[name]


def run_range(case, t):
    """case: session, first operation, number of operations, kinds, how often per distinct stack of calls (0: always), part of the stacks"""
    name, lo, n, kinds, times, part = case
    expect(name)
    plan = Plan(t, times, part)
    try:
        run_clean(name, lo, lo + n, kinds, plan, t)
    except Enough:
        pass
    finally:
        aaf2.file.io = io
    if plan.bad:
        k, op, kind, sig, msg = plan.bad[0]
        raise Violation('%s, %s number %d fails (%s): %s' % (name, op, k, {'err': 'nothing done', 'part': 'half done'}[kind], msg), sig, case=[name, k, 1, [kind], 0, 0])


def ranges(name, width, kinds, times):
    def cases():
        n = expect(name)[0]
        if times:
            width_ = n
        else:
            width_ = width
        for lo in range(0, n, width_):
            for k in kinds:
                for part in range(PARTS if times else 1):
                    yield [name, lo, min(width_, n - lo), [k], times, part]
    return cases


def spaces(tier):
    full = tier != 'quick'
    out = []
    for name in SESSIONS:
        small = name in ('container create', 'container update') or name.startswith('container') and 'read' in name
        if full or small:
            out.append(Space(name, ranges(name, 100, ['err', 'part'], 0), run_range, 'every operation of the underlying file failing', cpu_limit=900))
        else:
            out.append(Space(name + ', call sites', ranges(name, 0, ['err', 'part'], 2), run_range, 'the first two operations of every distinct stack of calls failing', cpu_limit=300))
    return out
