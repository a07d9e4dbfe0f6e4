"""Helpers to drive aaf2.AAFFile in bounded explorations."""
import os, io, struct
import aaf2
import aaf2.file
import aaf2.properties as props
from lib import aafref, util
from lib.mc import Violation

METADICT, HEADER = 0x0001, 0x0002

_counter = [0]
_base = {}


def newpath(tag='f'):
    _counter[0] += 1
    return util.spath('%s%d.aaf' % (tag, _counter[0]))


def base_image(**kw):
    """bytes of a freshly written empty file (cached per process)"""
    key = tuple(sorted(kw.items()))
    if key not in _base:
        p = newpath('base')
        with aaf2.open(p, 'w', **kw):
            pass
        _base[key] = readfile(p)
        os.unlink(p)
    return _base[key]


def readfile(p):
    with open(p, 'rb') as f:
        return f.read()


def writefile(p, data):
    with open(p, 'wb') as f:
        f.write(data)
    return p


def canon(obj, seen=None):
    """canonical form (see aafref) of a live object"""
    if obj is None:
        return None
    root = obj.root
    out = {}
    for p in list(obj.properties()):
        out[p.pid] = canon_prop(obj, p, root)
    return (bytes(obj.class_id.bytes_le), out)


def canon_prop(obj, p, root):
    f = p.format
    if f == props.SF_DATA_STREAM:
        with_s = p.open('r')
        with_s.seek(0)
        return ('S', bytes(with_s.read()))
    if f == props.SF_STRONG_OBJECT_REFERENCE:
        return ('R', canon(p.value))
    if f == props.SF_STRONG_OBJECT_REFERENCE_VECTOR:
        return ('V', tuple(canon(o) for o in p.value))
    if f == props.SF_STRONG_OBJECT_REFERENCE_SET:
        return ('T', {bytes(k.bytes_le): canon(o) for k, o in p.items()})
    if f == props.SF_WEAK_OBJECT_REFERENCE:
        return ('W', tuple(root.weakref_table[p.weakref_index]), p.key_pid, bytes(p.ref.bytes_le))
    if f in (props.SF_WEAK_OBJECT_REFERENCE_VECTOR, props.SF_WEAK_OBJECT_REFERENCE_SET):
        return ('WA', tuple(root.weakref_table[p.weakref_index]), p.key_pid, tuple(bytes(k.bytes_le) for k in p.references))
    return ('D', bytes(p.data))


def canon_file(f, skip=()):
    root = (bytes(f.root.class_id.bytes_le), {p.pid: canon_prop(f.root, p, f) for p in list(f.root.properties()) if p.pid not in skip})
    return root


def load(path_or_bytes, skip=(), what=''):
    """independent parse; raises Violation when the stored form is wrong"""
    d = path_or_bytes if isinstance(path_or_bytes, (bytes, bytearray)) else readfile(path_or_bytes)
    a = aafref.load(d, skip=skip)
    if a.errors:
        raise Violation('%sstored file is not well formed: %s' % (what, '; '.join(a.errors[:4])))
    return a


def same(a, b, what):
    if a != b:
        d = aafref.diff(a, b)
        raise Violation('%s: %s' % (what, '; '.join(d) or 'differ'))


class Keep(object):
    """in-memory output whose bytes survive close()"""


def mem_file(**kw):
    """a new in-memory AAF file whose bytes can be read after close() with bytes_of()"""
    f = aaf2.open(None, 'w', **kw)
    f._closed_bytes = None
    return f


def close_bytes(f):
    """close an in-memory file and return what it contains"""
    buf = f.f
    real_close = buf.close
    out = {}

    class Shim(object):
        def close(self_):
            out['b'] = buf.getvalue()
            real_close()

        def __getattr__(self_, n):
            return getattr(buf, n)
    f.f = Shim()
    f.close()
    return out['b']


def rename_storage(path, sep='_'):
    """give every property's storage another legal name, as other writers do
    (same length: the names in the properties streams are replaced in place; the two top level storages keep theirs)"""
    import aaf2.cfb
    with open(path, 'rb+') as raw:
        c = aaf2.cfb.CompoundFileBinary(raw, 'rb+')
        todo = ['/']
        n = 0
        while todo:
            d = todo.pop()
            names = [e.name for e in c.listdir(d)]
            ren = {}
            for x in names:
                stem = x[:-6] if x.endswith(' index') else x.split('{')[0]
                if '-' in stem:
                    ren[x] = x.replace('-', sep, 1) if stem.count('-') == 1 else x[:stem.rindex('-')] + sep + x[stem.rindex('-') + 1:]
            join = '' if d == '/' else d
            if ren and d != '/' and 'properties' in names:
                s = c.open(join + '/properties', 'rw')
                b = bytes(s.read())
                for old, new in sorted(ren.items(), key=lambda kv: -len(kv[0])):
                    o, w = [(z[:-6] if z.endswith(' index') else z.split('{')[0]) + '\0' for z in (old, new)]
                    b = b.replace(o.encode('utf-16-le'), w.encode('utf-16-le'))
                s.seek(0)
                s.write(b)
                for old, new in ren.items():
                    c.move(join + '/' + old, join + '/' + new)
                    n += 1
            for e in c.listdir(d):
                if e.type == 'storage':
                    todo.append(join + '/' + e.name)
        c.close()
    return n
