"""Lock-step driver: the real aaf2 container next to a plain dict-of-bytearrays model.

Histories are lists of small JSON operations:
  ['o',  path, mode]        open a stream (creates for w / rw), keep the handle
  ['w',  path, n]           write n patterned bytes at the handle's position
  ['s',  path, off, whence] seek
  ['t',  path, n|None]      truncate
  ['r',  path, n]           read n (-1: rest)
  ['md', path] ['mds', path] ['touch', path] ['rm', path] ['rmt', path] ['mv', src, dst]
  ['cls', path, k]          set the entry's class id   ['meta', path, field, value]
  ['R']                     close the file, validate the bytes independently, reopen for update
Handles are dropped at removal and at reopen.
"""
import uuid
from aaf2 import cfb as cfbmod
from aaf2.auid import AUID
from .mc import Violation, check
from .util import MemFile, pat
from . import cfbref

CLASSES = [None, AUID("0d010101-0101-3400-060e-2b3402060101"), AUID("b3b398a5-1c90-11d4-8053-080036210804")]
NSTEP = {'n': 0}


class Node(object):
    __slots__ = ('dir', 'data', 'cls', 'flags', 'ctime', 'mtime')

    def __init__(self, dir):
        self.dir = dir
        self.data = bytearray()
        self.cls = None
        self.flags = 0
        self.ctime = 0
        self.mtime = 0


class Reject(Exception):
    pass


def split(path):
    p = path.strip('/').split('/')
    return ('/' + '/'.join(p[:-1]), p[-1])


def same_name(a, b):
    return cfbref.name_key(a) == cfbref.name_key(b)


class Model(object):
    def __init__(self):
        self.t = {'/': Node(True)}
        self.t['/'].cls = CLASSES[2]
        self.pos = {}

    def kids(self, path):
        pre = path if path.endswith('/') else path + '/'
        return [p for p in self.t if p != '/' and p.startswith(pre) and '/' not in p[len(pre):]]

    def under(self, path):
        pre = path if path.endswith('/') else path + '/'
        return [p for p in self.t if p != '/' and p.startswith(pre)]

    def create(self, path, dir):
        if path in self.t or path == '/':
            raise Reject('exists')
        if path.endswith('/'):
            raise Reject('no name')
        parent, name = split(path)
        if parent not in self.t:
            raise Reject('no parent')
        if not self.t[parent].dir:
            raise Reject('parent is a stream')
        if not name or len(name) > 31:
            raise Reject('illegal name')
        for k in self.kids(parent):
            if same_name(split(k)[1], name):
                raise Reject('name collides')
        self.t[path] = Node(dir)

    def drop(self, path):
        for p in [path] + self.under(path):
            self.pos.pop(p, None)
            self.t.pop(p)

    def apply(self, op):
        """-> expected result, or raises Reject"""
        k = op[0]
        if k == 'md':
            self.create(op[1], True)
        elif k == 'touch':
            if op[1] in self.t:
                return
            self.create(op[1], False)
        elif k == 'mds':
            cur = ''
            todo = []
            for part in op[1].strip('/').split('/'):
                cur += '/' + part
                if cur not in self.t:
                    todo.append(cur)
            for c in todo:
                self.create(c, True)
        elif k in ('rm', 'rme'):
            if op[1] not in self.t or op[1] == '/':
                raise Reject('missing or root')
            if self.under(op[1]):
                raise Reject('not empty')
            self.drop(op[1])
        elif k in ('rmt', 'rmte'):
            if op[1] not in self.t or op[1] == '/':
                raise Reject('missing or root')
            if not self.t[op[1]].dir:
                raise Reject('not a directory')
            self.drop(op[1])
        elif k == 'mv':
            src, dst = op[1], op[2]
            if src == '/' or src not in self.t:
                raise Reject('bad source')
            if dst.endswith('/'):
                dst += split(src)[1]
            if dst == '/' or dst in self.t:
                raise Reject('target exists')
            parent, name = split(dst)
            if parent not in self.t or not self.t[parent].dir:
                raise Reject('bad target directory')
            if (parent + '/').startswith(src + '/'):
                raise Reject('target inside source')
            if not name or len(name) > 31:
                raise Reject('illegal name')
            for q in self.kids(parent):
                if q != src and same_name(split(q)[1], name):
                    raise Reject('name collides')
            for p in [src] + self.under(src):
                new = dst + p[len(src):]
                self.t[new] = self.t.pop(p)
                if p in self.pos:
                    self.pos[new] = self.pos.pop(p)
        elif k == 'o':
            path, mode = op[1], op[2]
            if path not in self.t:
                if mode == 'r':
                    raise Reject('missing')
                self.create(path, False)
            n = self.t[path]
            if n.dir:
                raise Reject('is a directory')
            if mode == 'w':
                n.data = bytearray()
                n.cls = None
            self.pos[path] = 0
        elif k == 'w':
            n = self.t[op[1]]
            p = self.pos[op[1]]
            data = op[3]
            end = p + len(data)
            n.data[p:end] = data
            self.pos[op[1]] = end
        elif k == 's':
            n = self.t[op[1]]
            off, wh = op[2], op[3]
            if wh == 1:
                off += self.pos[op[1]]
            elif wh == 2:
                off += len(n.data)
            if off < 0:
                raise Reject('negative')
            if off > len(n.data):
                n.data.extend(bytes(off - len(n.data)))
            self.pos[op[1]] = off
            return off
        elif k == 't':
            n = self.t[op[1]]
            size = self.pos[op[1]] if op[2] is None else op[2]
            if size < len(n.data):
                del n.data[size:]
            else:
                n.data.extend(bytes(size - len(n.data)))
            self.pos[op[1]] = min(self.pos[op[1]], size)
        elif k == 'r':
            n = self.t[op[1]]
            p = self.pos[op[1]]
            out = bytes(n.data[p:] if op[2] == -1 else n.data[p:p + op[2]])
            self.pos[op[1]] = p + len(out)
            return out
        elif k == 'cls':
            if op[1] not in self.t:
                raise Reject('missing')
            self.t[op[1]].cls = CLASSES[op[2]]
        elif k == 'meta':
            if op[1] not in self.t:
                raise Reject('missing')
            setattr(self.t[op[1]], {'flags': 'flags', 'create_time': 'ctime', 'modify_time': 'mtime'}[op[2]], op[3])
        else:
            raise KeyError(k)

    def canon(self):
        return tuple(sorted((p, n.dir, bytes(n.data), str(n.cls), n.flags, n.ctime, n.mtime) for p, n in self.t.items()))


class Rig(object):
    def __init__(self, ss=512, probe='all', tally=None, image=None, mem=MemFile, copy_model=None):
        self.ss = ss
        self.probe_mode = probe
        self.tally = tally
        self.m = copy_model or Model()
        self.h = {}
        self.wn = 0
        self.mem = mem
        if image is None:
            self.f = mem()
            self.cfb = cfbmod.CompoundFileBinary(self.f, 'wb+', sector_size=ss)
        else:
            self.f = mem(image)
            self.cfb = cfbmod.CompoundFileBinary(self.f, 'rb+')

    # -- real side
    def real(self, op):
        k = op[0]
        c = self.cfb
        if k == 'md':
            c.makedir(op[1])
        elif k == 'touch':
            parent, name = split(op[1])
            if not c.exists(parent):
                raise ValueError('no parent')
            c.find(parent).touch(name)
        elif k == 'mds':
            e = c.makedirs(op[1])
            if e is None or e.path() != op[1]:
                raise Violation('makedirs(%r) returned %r' % (op[1], e and e.path()))
        elif k == 'rm':
            c.remove(op[1])
        elif k == 'rmt':
            c.rmtree(op[1])
        elif k in ('rme', 'rmte'):
            # by the entry, after everything else was visited
            e = c.find(op[1])
            if e is None:
                raise ValueError('missing')
            for d in ['/'] + sorted(p for p, n in self.m.t.items() if n.dir):
                if c.find(d) is not None and d != split(op[1])[0]:
                    c.listdir(d)
            (c.remove if k == 'rme' else c.rmtree)(e)
        elif k == 'mv':
            e = c.move(op[1], op[2])
            dst = op[2] + (split(op[1])[1] if op[2].endswith('/') else '')
            if e.path() != '/' + dst.strip('/'):
                raise Violation('move%r returned entry at %r' % (tuple(op[1:]), e.path()))
        elif k == 'o':
            h = c.open(op[1], op[2])
            self.h[op[1]] = h
        elif k == 'w':
            self.h[op[1]].write(op[3])
        elif k == 's':
            return self.h[op[1]].seek(op[2], op[3])
        elif k == 't':
            if op[2] is None:
                self.h[op[1]].truncate()
            else:
                self.h[op[1]].truncate(op[2])
        elif k == 'r':
            return bytes(self.h[op[1]].read(op[2]))
        elif k == 'cls':
            c.find(op[1]).class_id = CLASSES[op[2]]
        elif k == 'meta':
            setattr(c.find(op[1]), op[2], op[3])
        else:
            raise KeyError(k)

    def enabled(self, op):
        if op[0] in ('w', 's', 't', 'r'):
            return op[1] in self.m.pos and op[1] in self.h
        return True

    def step(self, op):
        if self.tally is not None:
            self.tally.step()
        if op[0] == 'R':
            self.reopen()
            self.probe()
            return True
        if not self.enabled(op):
            return False
        if op[0] == 'w':
            self.wn += 1
            op = list(op[:3]) + [pat(self.wn, op[2], self.m.pos[op[1]] % 997)]
        before = self.m.canon() if op[0] not in ('w', 's', 't', 'r', 'o') else None
        rejected = None
        try:
            want = self.m.apply(op)
        except Reject as e:
            rejected = str(e)
        if rejected is not None and before is not None and self.m.canon() != before:
            raise AssertionError('model changed by rejected op')
        try:
            got = self.real(op)
        except Violation:
            raise
        except Exception as e:
            if rejected is None:
                raise
            self.probe(force=True, why='after rejected %s (%s)' % (op[:3], rejected))
            return True
        if rejected is not None:
            raise Violation('%s should be rejected (%s) but succeeded' % (op[:3], rejected))
        if op[0] in ('r', 's') and got != want:
            raise Violation('%s returned %s, expected %s' % (op[:3], brief(got), brief(want)))
        if op[0] in ('rm', 'rmt'):
            for p in list(self.h):
                if p not in self.m.t:
                    del self.h[p]
        elif op[0] == 'mv':
            dst = op[2] + (split(op[1])[1] if op[2].endswith('/') else '')
            for p in list(self.h):
                if p == op[1] or p.startswith(op[1] + '/'):
                    self.h[dst + p[len(op[1]):]] = self.h.pop(p)
        if op[0] in ('w', 's', 't', 'r', 'o'):
            p = op[1]
            if self.h[p].tell() != self.m.pos[p]:
                raise Violation('%s: position %d, expected %d' % (op[:3], self.h[p].tell(), self.m.pos[p]))
        self.probe()
        return True

    # -- observation
    def probe(self, force=False, why=''):
        if self.probe_mode == 'end' and not force:
            return
        self.observe(why)

    def observe(self, why=''):
        c = self.cfb
        for p, n in self.m.t.items():
            e = c.find(p)
            if e is None:
                raise Violation('%s not found %s' % (p, why))
            if e.isdir() != n.dir or e.isfile() == n.dir:
                raise Violation('%s has the wrong kind %s' % (p, why))
            if e.path() != p:
                raise Violation('%s reports path %r %s' % (p, e.path(), why))
            if p != '/' and e.class_id != n.cls:
                raise Violation('%s class id %s, expected %s %s' % (p, e.class_id, n.cls, why))
            if (e.flags, e.create_time, e.modify_time) != (n.flags, n.ctime, n.mtime):
                raise Violation('%s attributes %s, expected %s %s' % (p, (e.flags, e.create_time, e.modify_time), (n.flags, n.ctime, n.mtime), why))
            if n.dir:
                want = sorted(split(k)[1] for k in self.m.kids(p))
                got = sorted(x.name for x in c.listdir(p))
                if got != want:
                    raise Violation('%s lists %s, expected %s %s' % (p, got, want, why))
                if not e.get('no such name') is None or c.exists(p.rstrip('/') + '/no such name'):
                    raise Violation('%s contains a name never created' % p)
            else:
                if e.byte_size != len(n.data):
                    raise Violation('%s size %d, expected %d %s' % (p, e.byte_size, len(n.data), why))
                got = bytes(c.open(p, 'r').read())
                if got != n.data:
                    raise Violation('%s bytes differ: %s %s' % (p, diff(got, n.data), why))
        seen = []
        for root, dirs, files in c.walk():
            for x in dirs:
                seen.append((x.path(), True))
            for x in files:
                seen.append((x.path(), False))
        want = sorted((p, n.dir) for p, n in self.m.t.items() if p != '/')
        if sorted(seen) != want:
            raise Violation('walk gives %s, expected %s %s' % (sorted(seen), want, why))

    def close(self):
        self.cfb.close()
        data = self.f.getvalue()
        self.validate(data)
        return data

    def validate(self, data):
        img = cfbref.parse(data)
        self.img = img
        if img.errors:
            raise Violation('closed file is malformed: %s' % '; '.join(img.errors[:4]))
        if img.ss != self.ss:
            raise Violation('sector size changed to %d' % img.ss)
        want = {p: n for p, n in self.m.t.items() if p != '/'}
        if set(img.tree) != set(want):
            raise Violation('on disk: %s, expected %s' % (sorted(img.tree), sorted(want)))
        for p, n in want.items():
            e = img.tree[p]
            if (e.type == 1) != n.dir:
                raise Violation('on disk %s has type %d' % (p, e.type))
            if not n.dir and img.streams[p] != n.data:
                raise Violation('on disk %s bytes differ: %s' % (p, diff(img.streams[p], n.data)))
            cls = uuid.UUID(bytes_le=e.class_id)
            if cls.int != (n.cls.int if n.cls else 0):
                raise Violation('on disk %s class id %s expected %s' % (p, cls, n.cls))
            if (e.flags, e.ctime, e.mtime) != (n.flags, n.ctime, n.mtime):
                raise Violation('on disk %s attributes %s expected %s' % (p, (e.flags, e.ctime, e.mtime), (n.flags, n.ctime, n.mtime)))

    def reopen(self):
        data = self.close()
        self.h = {}
        self.m.pos = {}
        self.f = self.mem(data)
        self.cfb = cfbmod.CompoundFileBinary(self.f, 'rb+')
        if self.tally is not None:
            self.tally.state(data)
        return data

    def finish(self, state=True):
        if self.probe_mode == 'end':
            self.observe()
        data = self.close()
        if self.tally is not None and state:
            self.tally.state(data)
        f = self.mem(data)
        self.cfb = cfbmod.CompoundFileBinary(f, 'rb')
        self.observe('after reopen')
        self.cfb.close()
        if f.getvalue() != data:
            raise Violation('read-only session changed the file')
        return data


def brief(x):
    if isinstance(x, (bytes, bytearray)):
        return '%d bytes %s' % (len(x), bytes(x[:12]).hex())
    return repr(x)


def diff(a, b):
    if len(a) != len(b):
        return 'length %d vs %d' % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return 'first difference at %d: %02x vs %02x' % (i, x, y)
    return 'equal'


def dirty(rig):
    """leave recycled, non-zero sectors and mini sectors on the free lists"""
    for op in (['o', '/j1', 'w'], ['w', '/j1', 9000], ['o', '/j2', 'w'], ['w', '/j2', 700],
               ['o', '/j3', 'w'], ['w', '/j3', 130], ['rm', '/j1'], ['rm', '/j2']):
        rig.step(op)
