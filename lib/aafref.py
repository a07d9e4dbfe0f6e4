"""Independent reader of the AAF object layer, on top of lib/cfbref.py: shares no code with aaf2.

load(bytes) -> AAF; .root is the canonical form of the root object:
   obj   = (class id bytes_le, {pid: value})
   value = ('D', bytes) | ('S', bytes) | ('R', obj) | ('V', (obj, ...)) | ('T', {key bytes: obj})
         | ('W', pid path, key pid, key bytes) | ('WA', pid path, key pid, (key bytes, ...))
.errors lists everything that does not follow the stored format.
"""
import struct
from lib import cfbref

DATA, STREAM, SREF, SVEC, SSET, WREF, WVEC, WSET = 0x82, 0x42, 0x22, 0x32, 0x3A, 0x02, 0x12, 0x1A


def u16z(b):
    """UTF-16 text up to its terminator"""
    s = b.decode('utf-16-le', 'surrogatepass')
    i = s.find('\0')
    return s if i < 0 else s[:i]


class AAF(object):
    def __init__(self, data, skip=(), cfb_errors=True):
        self.img = cfbref.parse(data)
        self.errors = []
        if cfb_errors:
            self.errors += list(self.img.errors)
        self.paths = {}
        self.used = set()
        self.weak = []
        self._weak_table()
        self.skip = skip          # pids of the root object left out
        self.root = self.obj('/')

    def err(self, fmt, *a):
        if len(self.errors) < 40:
            self.errors.append(fmt % a if a else fmt)

    def _weak_table(self):
        s = self.img.streams.get('/referenced properties')
        if s is None:
            self.err('no referenced properties stream')
            return
        self.used.add('/referenced properties')
        bo, n, npid = struct.unpack('<BHI', s[:7])
        if bo != 0x4c:
            self.err('referenced properties byte order %x', bo)
        if len(s) != 7 + 2 * npid:
            self.err('referenced properties: %d pids declared, %d bytes', npid, len(s) - 7)
        pids = struct.unpack('<%dH' % ((len(s) - 7) // 2), s[7:7 + (len(s) - 7) // 2 * 2])[:npid]
        cur = []
        for p in pids:
            if p:
                cur.append(p)
            else:
                self.weak.append(tuple(cur))
                cur = []
        if cur:
            self.err('referenced properties: last path not terminated')
        if len(self.weak) != n:
            self.err('referenced properties: %d paths declared, %d present', n, len(self.weak))
        if len(set(self.weak)) != len(self.weak):
            self.err('referenced properties: a path occurs twice')

    def weak_path(self, i, where):
        if i >= len(self.weak):
            self.err('%s: weak reference index %d of %d', where, i, len(self.weak))
            return None
        return self.weak[i]

    def join(self, path, name):
        return '/' + name if path == '/' else path + '/' + name

    def stream(self, path, name):
        p = self.join(path, name)
        self.used.add(p)
        return self.img.streams.get(p)

    def obj(self, path):
        node = self.img.root_entry if path == '/' else self.img.tree.get(path)
        if node is None:
            self.err('no storage %s', path)
            return None
        self.used.add(path)
        s = self.stream(path, 'properties')
        props = {}
        self.paths[path] = True
        if s is None:
            self.err('%s has no properties stream', path)
            return (bytes(node.class_id), props)
        if len(s) < 4:
            self.err('%s: properties stream of %d bytes', path, len(s))
            return (bytes(node.class_id), props)
        bo, ver, n = struct.unpack('<BBH', s[:4])
        if bo != 0x4c or ver != 32:
            self.err('%s: properties header %x %d', path, bo, ver)
        off = 4 + 6 * n
        names = {}
        for i in range(n):
            pid, fmt, size = struct.unpack('<HHH', s[4 + 6 * i:10 + 6 * i])
            d = s[off:off + size]
            if len(d) != size:
                self.err('%s: property %04x data cut short', path, pid)
            off += size
            if pid in props:
                self.err('%s: property %04x stored twice', path, pid)
            if path == '/' and pid in self.skip:
                continue
            props[pid] = self.value(path, pid, fmt, d, names)
        if off != len(s):
            self.err('%s: properties stream has %d bytes, %d used', path, len(s), off)
        return (bytes(node.class_id), props)

    def claim(self, path, name, names, pid):
        k = name.upper()
        if k in names:
            self.err('%s: properties %04x and %04x share the storage name %r', path, names[k], pid, name)
        names[k] = pid

    def value(self, path, pid, fmt, d, names):
        where = '%s %04x' % (path, pid)
        if fmt == DATA:
            return ('D', bytes(d))
        if fmt == STREAM:
            if d[:1] != b'\x55':
                self.err('%s: stream reference starts %r', where, d[:1])
            name = self.text(where, d[1:])
            self.claim(path, name, names, pid)
            s = self.stream(path, name)
            if s is None:
                self.err('%s: stream %r missing', where, name)
            return ('S', bytes(s or b''))
        if fmt == SREF:
            name = self.text(where, d)
            self.claim(path, name, names, pid)
            return ('R', self.obj(self.join(path, name)))
        if fmt in (SVEC, SSET):
            name = self.text(where, d)
            self.claim(path, name, names, pid)
            ix = self.stream(path, name + ' index')
            if ix is None:
                self.err('%s: index %r missing', where, name)
                return ('V', ()) if fmt == SVEC else ('T', {})
            if fmt == SVEC:
                n, nf, lf = struct.unpack('<III', ix[:12])
                if len(ix) != 12 + 4 * n:
                    self.err('%s: index of %d bytes for %d elements', where, len(ix), n)
                keys = struct.unpack('<%dI' % n, ix[12:12 + 4 * n])
                self.keys(where, keys, nf)
                return ('V', tuple(self.obj(self.join(path, '%s{%x}' % (name, k))) for k in keys))
            n, nf, lf, kp, ks = struct.unpack('<IIIHB', ix[:15])
            if len(ix) != 15 + n * (8 + ks):
                self.err('%s: index of %d bytes for %d elements', where, len(ix), n)
            out = {}
            keys = []
            for i in range(n):
                o = 15 + i * (8 + ks)
                k, rc = struct.unpack('<II', ix[o:o + 8])
                key = bytes(ix[o + 8:o + 8 + ks])
                keys.append(k)
                if key in out:
                    self.err('%s: key %s twice', where, key.hex())
                ob = self.obj(self.join(path, '%s{%x}' % (name, k)))
                out[key] = ob
                if ob is not None:
                    got = ob[1].get(kp)
                    if got is None and kp == 0x1b01:
                        got = ob[1].get(0x4c01)      # effect parameters are keyed by their definition
                    if got is None:
                        self.err('%s: member without its key property %04x', where, kp)
                    elif got != ('D', key):
                        self.err('%s: index key %s, member has %s', where, key.hex(), got[1].hex())
            self.keys(where, keys, nf)
            return ('T', out)
        if fmt == WREF:
            ix, kp, ks = struct.unpack('<HHB', d[:5])
            if len(d) != 5 + ks or ks not in (16, 32):
                self.err('%s: weak reference of %d bytes, key size %d', where, len(d), ks)
            return ('W', self.weak_path(ix, where), kp, bytes(d[5:]))
        if fmt in (WVEC, WSET):
            name = self.text(where, d)
            self.claim(path, name, names, pid)
            b = self.stream(path, name + ' index')
            if b is None:
                self.err('%s: index %r missing', where, name)
                return ('WA', None, 0, ())
            n, ix, kp, ks = struct.unpack('<IHHB', b[:9])
            if len(b) != 9 + n * ks or ks not in (16, 32):
                self.err('%s: index of %d bytes for %d keys of %d', where, len(b), n, ks)
            keys = tuple(bytes(b[9 + i * ks:9 + (i + 1) * ks]) for i in range(n))
            if fmt == WSET:
                if len(set(keys)) != len(keys):
                    self.err('%s: reference set holds a key twice', where)
            return ('WA', self.weak_path(ix, where), kp, keys)
        self.err('%s: unknown stored form %x', where, fmt)
        return ('?', fmt, bytes(d))

    def text(self, where, d):
        if len(d) % 2 or d[-2:] != b'\0\0':
            self.err('%s: name not terminated %r', where, d)
        return u16z(d[:len(d) // 2 * 2])

    def keys(self, where, keys, nf):
        if len(set(keys)) != len(keys):
            self.err('%s: element keys repeat %r', where, keys)
        # (when the last key was given away, one that is free)
        if keys and max(keys) >= nf and (max(keys) < 0xfffffff0 or nf in keys):
            self.err('%s: next free key %d, but key %d in use', where, nf, max(keys))

    # -- whole-file checks
    def targets(self, path):
        """the keyed collection a pid path leads to"""
        o = self.root
        for p in path[:-1]:
            v = o[1].get(p)
            if v is None or v[0] != 'R':
                return None
            o = v[1]
        v = o[1].get(path[-1])
        return v[1] if v and v[0] == 'T' else None

    def check_weak(self, obj=None, where=''):
        """every weak reference resolves"""
        obj = obj or self.root
        for pid, v in obj[1].items():
            w = '%s.%04x' % (where, pid)
            if v[0] == 'R' and v[1]:
                self.check_weak(v[1], w)
            elif v[0] == 'V':
                for i, o in enumerate(v[1]):
                    self.check_weak(o, '%s[%d]' % (w, i))
            elif v[0] == 'T':
                for k, o in v[1].items():
                    self.check_weak(o, '%s[%s]' % (w, k.hex()))
            elif v[0] in ('W', 'WA') and v[1] is not None:
                t = self.targets(v[1])
                for k in ((v[3],) if v[0] == 'W' else v[3]):
                    if t is None:
                        self.err('%s: weak reference path %r leads nowhere', w, v[1])
                    elif k not in t:
                        self.err('%s: weak reference to absent %s', w, k.hex())


def load(data, **kw):
    return AAF(data, **kw)


def diff(a, b, where='', out=None, limit=6):
    """differences between two canonical forms"""
    out = [] if out is None else out
    if len(out) >= limit or a is b:
        return out
    if a is None or b is None or len(a) != 2 or isinstance(a[0], str):
        if a != b:
            out.append('%s: %r / %r' % (where, short(a), short(b)))
        return out
    if a[0] != b[0]:
        out.append('%s: class %s / %s' % (where, a[0].hex(), b[0].hex()))
    for pid in sorted(set(a[1]) | set(b[1])):
        w = '%s.%04x' % (where, pid)
        x, y = a[1].get(pid), b[1].get(pid)
        if x == y:
            continue
        if x is None or y is None or x[0] != y[0]:
            out.append('%s: %s / %s' % (w, short(x), short(y)))
        elif x[0] == 'R':
            diff(x[1], y[1], w, out, limit)
        elif x[0] == 'V':
            if len(x[1]) != len(y[1]):
                out.append('%s: %d / %d elements' % (w, len(x[1]), len(y[1])))
            for i, (p, q) in enumerate(zip(x[1], y[1])):
                diff(p, q, '%s[%d]' % (w, i), out, limit)
        elif x[0] == 'T':
            for k in sorted(set(x[1]) | set(y[1])):
                if k not in x[1] or k not in y[1]:
                    out.append('%s[%s]: only in the %s' % (w, k.hex(), 'first' if k in x[1] else 'second'))
                else:
                    diff(x[1][k], y[1][k], '%s[%s]' % (w, k.hex()), out, limit)
        else:
            out.append('%s: %s / %s' % (w, short(x), short(y)))
        if len(out) >= limit:
            break
    return out


def short(v):
    s = repr(v)
    return s if len(s) < 160 else s[:160] + '...'
